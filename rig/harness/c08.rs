use super::common::*;
use crate::sequences::rowsum::*;

const QTS: SequenceType = SequenceType::QuaternionType;
const WTS: SequenceType = SequenceType::WilliamsonType;
const WS: SequenceType = SequenceType::Williamson;
type R = [i64; 4];

fn perms() -> Vec<([usize; 4], bool)> {
    let mut r = vec![];
    for a in 0..4usize {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    if a != b && a != c && a != d && b != c && b != d && c != d {
                        let p = [a, b, c, d];
                        let mut odd = false;
                        for i in 0..4 {
                            for j in i + 1..4 {
                                odd ^= p[i] > p[j];
                            }
                        }
                        r.push((p, odd));
                    }
                }
            }
        }
    }
    r
}
/// b is a signed permutation of a (with an even number of exchanges and
/// negations together, if asked)
fn related(a: &R, b: &R, even: bool) -> bool {
    let mut eq = [[false; 4]; 4];
    let mut op = [[false; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            eq[i][j] = a[i] == b[j];
            op[i][j] = a[i] == -b[j];
        }
    }
    let mut r = false;
    for (p, odd) in perms() {
        for s in 0..16u32 {
            if even && (odd ^ (s.count_ones() % 2 == 1)) {
                continue;
            }
            let mut m = true;
            for j in 0..4 {
                m &= if s >> j & 1 == 1 { op[p[j]][j] } else { eq[p[j]][j] };
            }
            r |= m;
        }
    }
    r
}
/// an integer with |x| <= b and the parity of n
fn summand(n: usize, b: i64) -> i64 {
    let lo = -b;
    let lo = if (lo - n as i64).rem_euclid(2) == 1 { lo + 1 } else { lo };
    let k = (b - lo) / 2 + 1;
    lo + 2 * below(k as u64) as i64
}
fn root(m: i64) -> i64 {
    let mut b = 0;
    while (b + 1) * (b + 1) <= m {
        b += 1;
    }
    b
}
fn listed(n: usize, t: SequenceType) -> Vec<R> {
    generate_rowsums(n, t).into_iter().map(|q| [q.0 as i64, q.1 as i64, q.2 as i64, q.3 as i64]).collect()
}
/// every solution is represented
fn complete(n: usize, t: SequenceType) {
    let b = root(4 * n as i64);
    let a: R = [summand(n, b), summand(n, b), summand(n, b), summand(n, b)];
    assume(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] == 4 * n as i64);
    let mut ok = false;
    for m in listed(n, t) {
        ok |= related(&a, &m, matches!(t, SequenceType::QuaternionType));
    }
    check(ok, "a possible rowsum quadruple is not represented in the generated list");
    reach();
}
/// every listed quadruple is a solution in normal order, listed once, and
/// (for two listed ones) not equivalent to another one
fn sound(n: usize, t: SequenceType) {
    let l = listed(n, t);
    let i = below(l.len() as u64) as usize;
    let j = below(l.len() as u64) as usize;
    let mut pick = [[0i64; 4]; 2];
    for k in 0..l.len() {
        for c in 0..4 {
            if k == i {
                pick[0][c] = l[k][c];
            }
            if k == j {
                pick[1][c] = l[k][c];
            }
        }
    }
    let (a, b) = (pick[0], pick[1]);
    check(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] == 4 * n as i64, "a listed rowsum quadruple does not have square sum 4n");
    for c in 0..4 {
        check((a[c] - n as i64) % 2 == 0, "a listed rowsum has the wrong parity");
    }
    let last = if a[3] < 0 { -a[3] } else { a[3] };
    check((0 <= a[0]) & (a[0] <= a[1]) & (a[1] <= a[2]) & (a[2] <= last), "a listed rowsum quadruple is not in normal order");
    check((i == j) | !related(&a, &b, matches!(t, SequenceType::QuaternionType)), "two listed rowsum quadruples are equivalent");
    reach();
}
fn squares(p: usize) {
    let b = root(p as i64);
    let a: R = [below(b as u64 + 1) as i64, below(b as u64 + 1) as i64, below(b as u64 + 1) as i64, below(b as u64 + 1) as i64];
    let sorted = (a[0] <= a[1]) & (a[1] <= a[2]) & (a[2] <= a[3]);
    let is = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] == p as i64;
    let mut n = 0u8;
    for m in sum_of_four_squares(p) {
        n += ((m.0 as i64 == a[0]) & (m.1 as i64 == a[1]) & (m.2 as i64 == a[2]) & (m.3 as i64 == a[3])) as u8;
    }
    check(n == (sorted & is) as u8, "sum_of_four_squares does not list every sorted solution once and nothing else");
    reach();
}
/// sequences with the given numbers of -1 in front
fn steps(n: usize) -> Q {
    let mut r: Q = [vec![], vec![], vec![], vec![]];
    for k in 0..4 {
        let m = below(n as u64 + 1) as usize;
        for i in 0..n {
            r[k].push(if i < m { -1 } else { 1 });
        }
    }
    r
}
fn sums(q: &Q) -> R {
    let mut r = [0i64; 4];
    for k in 0..4 {
        for x in q[k].iter() {
            r[k] += *x as i64;
        }
    }
    r
}
fn normal(r: &R) -> bool {
    let mut zero = false;
    let mut dup = false;
    for i in 0..4 {
        zero |= r[i] == 0;
        for j in 0..i {
            dup |= r[i] == r[j];
        }
    }
    let last = if r[3] < 0 { -r[3] } else { r[3] };
    (0 <= r[0]) & (r[0] <= r[1]) & (r[1] <= r[2]) & (((zero | dup) & (r[2] <= r[3])) | (!(zero | dup) & (r[2] <= last)))
}
fn sorted(n: usize, free: bool) {
    no_feasibility();
    let q = if free { sym_quad(n) } else { steps(n) };
    check(has_sorted_rowsums(&to_quadseq(&q)) == normal(&sums(&q)), "has_sorted_rowsums is wrong");
    reach();
}
/// some image of every quadruple passes the rowsum-order test
fn reachable(n: usize, t: SequenceType) {
    no_feasibility();
    let q = steps(n);
    let even = matches!(t, SequenceType::QuaternionType);
    let mut any = false;
    for (p, odd) in perms() {
        for s in 0..16u32 {
            if even && (odd ^ (s.count_ones() % 2 == 1)) {
                continue;
            }
            let mut g = q.clone();
            for j in 0..4 {
                g[j] = q[p[j]].iter().map(|x| if s >> j & 1 == 1 { -*x } else { *x }).collect();
            }
            any |= has_sorted_rowsums(&to_quadseq(&g));
        }
    }
    check(any, "no image of a quadruple passes the rowsum-order test");
    reach();
}
harnesses! {
    vh_c08_complete_qts_1 = complete(1, QTS);
    vh_c08_sound_qts_1 = sound(1, QTS);
    vh_c08_complete_wts_1 = complete(1, WTS);
    vh_c08_sound_wts_1 = sound(1, WTS);
    vh_c08_complete_ws_1 = complete(1, WS);
    vh_c08_sound_ws_1 = sound(1, WS);
    vh_c08_complete_qts_2 = complete(2, QTS);
    vh_c08_sound_qts_2 = sound(2, QTS);
    vh_c08_complete_wts_2 = complete(2, WTS);
    vh_c08_sound_wts_2 = sound(2, WTS);
    vh_c08_complete_ws_2 = complete(2, WS);
    vh_c08_sound_ws_2 = sound(2, WS);
    vh_c08_complete_qts_3 = complete(3, QTS);
    vh_c08_sound_qts_3 = sound(3, QTS);
    vh_c08_complete_wts_3 = complete(3, WTS);
    vh_c08_sound_wts_3 = sound(3, WTS);
    vh_c08_complete_ws_3 = complete(3, WS);
    vh_c08_sound_ws_3 = sound(3, WS);
    vh_c08_complete_qts_4 = complete(4, QTS);
    vh_c08_sound_qts_4 = sound(4, QTS);
    vh_c08_complete_wts_4 = complete(4, WTS);
    vh_c08_sound_wts_4 = sound(4, WTS);
    vh_c08_complete_ws_4 = complete(4, WS);
    vh_c08_sound_ws_4 = sound(4, WS);
    vh_c08_complete_qts_5 = complete(5, QTS);
    vh_c08_sound_qts_5 = sound(5, QTS);
    vh_c08_complete_wts_5 = complete(5, WTS);
    vh_c08_sound_wts_5 = sound(5, WTS);
    vh_c08_complete_ws_5 = complete(5, WS);
    vh_c08_sound_ws_5 = sound(5, WS);
    vh_c08_complete_qts_6 = complete(6, QTS);
    vh_c08_sound_qts_6 = sound(6, QTS);
    vh_c08_complete_wts_6 = complete(6, WTS);
    vh_c08_sound_wts_6 = sound(6, WTS);
    vh_c08_complete_ws_6 = complete(6, WS);
    vh_c08_sound_ws_6 = sound(6, WS);
    vh_c08_complete_qts_7 = complete(7, QTS);
    vh_c08_sound_qts_7 = sound(7, QTS);
    vh_c08_complete_wts_7 = complete(7, WTS);
    vh_c08_sound_wts_7 = sound(7, WTS);
    vh_c08_complete_ws_7 = complete(7, WS);
    vh_c08_sound_ws_7 = sound(7, WS);
    vh_c08_complete_qts_8 = complete(8, QTS);
    vh_c08_sound_qts_8 = sound(8, QTS);
    vh_c08_complete_wts_8 = complete(8, WTS);
    vh_c08_sound_wts_8 = sound(8, WTS);
    vh_c08_complete_ws_8 = complete(8, WS);
    vh_c08_sound_ws_8 = sound(8, WS);
    vh_c08_complete_qts_9 = complete(9, QTS);
    vh_c08_sound_qts_9 = sound(9, QTS);
    vh_c08_complete_wts_9 = complete(9, WTS);
    vh_c08_sound_wts_9 = sound(9, WTS);
    vh_c08_complete_ws_9 = complete(9, WS);
    vh_c08_sound_ws_9 = sound(9, WS);
    vh_c08_complete_qts_10 = complete(10, QTS);
    vh_c08_sound_qts_10 = sound(10, QTS);
    vh_c08_complete_wts_10 = complete(10, WTS);
    vh_c08_sound_wts_10 = sound(10, WTS);
    vh_c08_complete_ws_10 = complete(10, WS);
    vh_c08_sound_ws_10 = sound(10, WS);
    vh_c08_complete_qts_11 = complete(11, QTS);
    vh_c08_sound_qts_11 = sound(11, QTS);
    vh_c08_complete_wts_11 = complete(11, WTS);
    vh_c08_sound_wts_11 = sound(11, WTS);
    vh_c08_complete_ws_11 = complete(11, WS);
    vh_c08_sound_ws_11 = sound(11, WS);
    vh_c08_complete_qts_12 = complete(12, QTS);
    vh_c08_sound_qts_12 = sound(12, QTS);
    vh_c08_complete_wts_12 = complete(12, WTS);
    vh_c08_sound_wts_12 = sound(12, WTS);
    vh_c08_complete_ws_12 = complete(12, WS);
    vh_c08_sound_ws_12 = sound(12, WS);
    vh_c08_complete_qts_13 = complete(13, QTS);
    vh_c08_sound_qts_13 = sound(13, QTS);
    vh_c08_complete_wts_13 = complete(13, WTS);
    vh_c08_sound_wts_13 = sound(13, WTS);
    vh_c08_complete_ws_13 = complete(13, WS);
    vh_c08_sound_ws_13 = sound(13, WS);
    vh_c08_complete_qts_14 = complete(14, QTS);
    vh_c08_sound_qts_14 = sound(14, QTS);
    vh_c08_complete_wts_14 = complete(14, WTS);
    vh_c08_sound_wts_14 = sound(14, WTS);
    vh_c08_complete_ws_14 = complete(14, WS);
    vh_c08_sound_ws_14 = sound(14, WS);
    vh_c08_complete_qts_15 = complete(15, QTS);
    vh_c08_sound_qts_15 = sound(15, QTS);
    vh_c08_complete_wts_15 = complete(15, WTS);
    vh_c08_sound_wts_15 = sound(15, WTS);
    vh_c08_complete_ws_15 = complete(15, WS);
    vh_c08_sound_ws_15 = sound(15, WS);
    vh_c08_complete_qts_16 = complete(16, QTS);
    vh_c08_sound_qts_16 = sound(16, QTS);
    vh_c08_complete_wts_16 = complete(16, WTS);
    vh_c08_sound_wts_16 = sound(16, WTS);
    vh_c08_complete_ws_16 = complete(16, WS);
    vh_c08_sound_ws_16 = sound(16, WS);
    vh_c08_complete_qts_17 = complete(17, QTS);
    vh_c08_sound_qts_17 = sound(17, QTS);
    vh_c08_complete_wts_17 = complete(17, WTS);
    vh_c08_sound_wts_17 = sound(17, WTS);
    vh_c08_complete_ws_17 = complete(17, WS);
    vh_c08_sound_ws_17 = sound(17, WS);
    vh_c08_complete_qts_18 = complete(18, QTS);
    vh_c08_sound_qts_18 = sound(18, QTS);
    vh_c08_complete_wts_18 = complete(18, WTS);
    vh_c08_sound_wts_18 = sound(18, WTS);
    vh_c08_complete_ws_18 = complete(18, WS);
    vh_c08_sound_ws_18 = sound(18, WS);
    vh_c08_complete_qts_19 = complete(19, QTS);
    vh_c08_sound_qts_19 = sound(19, QTS);
    vh_c08_complete_wts_19 = complete(19, WTS);
    vh_c08_sound_wts_19 = sound(19, WTS);
    vh_c08_complete_ws_19 = complete(19, WS);
    vh_c08_sound_ws_19 = sound(19, WS);
    vh_c08_complete_qts_20 = complete(20, QTS);
    vh_c08_sound_qts_20 = sound(20, QTS);
    vh_c08_complete_wts_20 = complete(20, WTS);
    vh_c08_sound_wts_20 = sound(20, WTS);
    vh_c08_complete_ws_20 = complete(20, WS);
    vh_c08_sound_ws_20 = sound(20, WS);
    vh_c08_complete_qts_21 = complete(21, QTS);
    vh_c08_sound_qts_21 = sound(21, QTS);
    vh_c08_complete_wts_21 = complete(21, WTS);
    vh_c08_sound_wts_21 = sound(21, WTS);
    vh_c08_complete_ws_21 = complete(21, WS);
    vh_c08_sound_ws_21 = sound(21, WS);
    vh_c08_complete_qts_22 = complete(22, QTS);
    vh_c08_sound_qts_22 = sound(22, QTS);
    vh_c08_complete_wts_22 = complete(22, WTS);
    vh_c08_sound_wts_22 = sound(22, WTS);
    vh_c08_complete_ws_22 = complete(22, WS);
    vh_c08_sound_ws_22 = sound(22, WS);
    vh_c08_complete_qts_23 = complete(23, QTS);
    vh_c08_sound_qts_23 = sound(23, QTS);
    vh_c08_complete_wts_23 = complete(23, WTS);
    vh_c08_sound_wts_23 = sound(23, WTS);
    vh_c08_complete_ws_23 = complete(23, WS);
    vh_c08_sound_ws_23 = sound(23, WS);
    vh_c08_complete_qts_24 = complete(24, QTS);
    vh_c08_sound_qts_24 = sound(24, QTS);
    vh_c08_complete_wts_24 = complete(24, WTS);
    vh_c08_sound_wts_24 = sound(24, WTS);
    vh_c08_complete_ws_24 = complete(24, WS);
    vh_c08_sound_ws_24 = sound(24, WS);
    vh_c08_complete_qts_25 = complete(25, QTS);
    vh_c08_sound_qts_25 = sound(25, QTS);
    vh_c08_complete_wts_25 = complete(25, WTS);
    vh_c08_sound_wts_25 = sound(25, WTS);
    vh_c08_complete_ws_25 = complete(25, WS);
    vh_c08_sound_ws_25 = sound(25, WS);
    vh_c08_complete_qts_26 = complete(26, QTS);
    vh_c08_sound_qts_26 = sound(26, QTS);
    vh_c08_complete_wts_26 = complete(26, WTS);
    vh_c08_sound_wts_26 = sound(26, WTS);
    vh_c08_complete_ws_26 = complete(26, WS);
    vh_c08_sound_ws_26 = sound(26, WS);
    vh_c08_complete_qts_27 = complete(27, QTS);
    vh_c08_sound_qts_27 = sound(27, QTS);
    vh_c08_complete_wts_27 = complete(27, WTS);
    vh_c08_sound_wts_27 = sound(27, WTS);
    vh_c08_complete_ws_27 = complete(27, WS);
    vh_c08_sound_ws_27 = sound(27, WS);
    vh_c08_complete_qts_28 = complete(28, QTS);
    vh_c08_sound_qts_28 = sound(28, QTS);
    vh_c08_complete_wts_28 = complete(28, WTS);
    vh_c08_sound_wts_28 = sound(28, WTS);
    vh_c08_complete_ws_28 = complete(28, WS);
    vh_c08_sound_ws_28 = sound(28, WS);
    vh_c08_complete_qts_29 = complete(29, QTS);
    vh_c08_sound_qts_29 = sound(29, QTS);
    vh_c08_complete_wts_29 = complete(29, WTS);
    vh_c08_sound_wts_29 = sound(29, WTS);
    vh_c08_complete_ws_29 = complete(29, WS);
    vh_c08_sound_ws_29 = sound(29, WS);
    vh_c08_complete_qts_30 = complete(30, QTS);
    vh_c08_sound_qts_30 = sound(30, QTS);
    vh_c08_complete_wts_30 = complete(30, WTS);
    vh_c08_sound_wts_30 = sound(30, WTS);
    vh_c08_complete_ws_30 = complete(30, WS);
    vh_c08_sound_ws_30 = sound(30, WS);
    vh_c08_complete_qts_32 = complete(32, QTS);
    vh_c08_sound_qts_32 = sound(32, QTS);
    vh_c08_complete_wts_32 = complete(32, WTS);
    vh_c08_sound_wts_32 = sound(32, WTS);
    vh_c08_complete_ws_32 = complete(32, WS);
    vh_c08_sound_ws_32 = sound(32, WS);
    vh_c08_complete_qts_36 = complete(36, QTS);
    vh_c08_sound_qts_36 = sound(36, QTS);
    vh_c08_complete_wts_36 = complete(36, WTS);
    vh_c08_sound_wts_36 = sound(36, WTS);
    vh_c08_complete_ws_36 = complete(36, WS);
    vh_c08_sound_ws_36 = sound(36, WS);
    vh_c08_complete_qts_40 = complete(40, QTS);
    vh_c08_sound_qts_40 = sound(40, QTS);
    vh_c08_complete_wts_40 = complete(40, WTS);
    vh_c08_sound_wts_40 = sound(40, WTS);
    vh_c08_complete_ws_40 = complete(40, WS);
    vh_c08_sound_ws_40 = sound(40, WS);
    vh_c08_complete_qts_48 = complete(48, QTS);
    vh_c08_sound_qts_48 = sound(48, QTS);
    vh_c08_complete_wts_48 = complete(48, WTS);
    vh_c08_sound_wts_48 = sound(48, WTS);
    vh_c08_complete_ws_48 = complete(48, WS);
    vh_c08_sound_ws_48 = sound(48, WS);
    vh_c08_squares_0 = squares(0);
    vh_c08_squares_1 = squares(1);
    vh_c08_squares_2 = squares(2);
    vh_c08_squares_3 = squares(3);
    vh_c08_squares_4 = squares(4);
    vh_c08_squares_5 = squares(5);
    vh_c08_squares_6 = squares(6);
    vh_c08_squares_7 = squares(7);
    vh_c08_squares_8 = squares(8);
    vh_c08_squares_9 = squares(9);
    vh_c08_squares_12 = squares(12);
    vh_c08_squares_16 = squares(16);
    vh_c08_squares_20 = squares(20);
    vh_c08_squares_28 = squares(28);
    vh_c08_squares_33 = squares(33);
    vh_c08_squares_36 = squares(36);
    vh_c08_squares_50 = squares(50);
    vh_c08_squares_64 = squares(64);
    vh_c08_squares_72 = squares(72);
    vh_c08_squares_100 = squares(100);
    vh_c08_sorted_1 = sorted(1, true);
    vh_c08_sorted_2 = sorted(2, true);
    vh_c08_sorted_3 = sorted(3, true);
    vh_c08_sorted_4 = sorted(4, true);
    vh_c08_sorted_5 = sorted(5, true);
    vh_c08_sorted_6 = sorted(6, true);
    vh_c08_sorted_7 = sorted(7, false);
    vh_c08_sorted_8 = sorted(8, false);
    vh_c08_sorted_12 = sorted(12, false);
    vh_c08_sorted_16 = sorted(16, false);
    vh_c08_reachable_qts_1 = reachable(1, QTS);
    vh_c08_reachable_wts_1 = reachable(1, WTS);
    vh_c08_reachable_qts_2 = reachable(2, QTS); // cost=2
    vh_c08_reachable_wts_2 = reachable(2, WTS); // cost=2
    vh_c08_reachable_qts_3 = reachable(3, QTS);
    vh_c08_reachable_wts_3 = reachable(3, WTS);
    vh_c08_reachable_qts_4 = reachable(4, QTS);
    vh_c08_reachable_wts_4 = reachable(4, WTS); // cost=2
    vh_c08_complete_qts_31 = complete(31, QTS);
    vh_c08_sound_qts_31 = sound(31, QTS);
    vh_c08_complete_wts_31 = complete(31, WTS);
    vh_c08_sound_wts_31 = sound(31, WTS);
    vh_c08_complete_ws_31 = complete(31, WS);
    vh_c08_sound_ws_31 = sound(31, WS);
    vh_c08_complete_qts_33 = complete(33, QTS);
    vh_c08_sound_qts_33 = sound(33, QTS);
    vh_c08_complete_wts_33 = complete(33, WTS);
    vh_c08_sound_wts_33 = sound(33, WTS);
    vh_c08_complete_ws_33 = complete(33, WS);
    vh_c08_sound_ws_33 = sound(33, WS);
    vh_c08_complete_qts_34 = complete(34, QTS);
    vh_c08_sound_qts_34 = sound(34, QTS);
    vh_c08_complete_wts_34 = complete(34, WTS);
    vh_c08_sound_wts_34 = sound(34, WTS);
    vh_c08_complete_ws_34 = complete(34, WS);
    vh_c08_sound_ws_34 = sound(34, WS);
    vh_c08_complete_qts_35 = complete(35, QTS);
    vh_c08_sound_qts_35 = sound(35, QTS);
    vh_c08_complete_wts_35 = complete(35, WTS);
    vh_c08_sound_wts_35 = sound(35, WTS);
    vh_c08_complete_ws_35 = complete(35, WS);
    vh_c08_sound_ws_35 = sound(35, WS);
    vh_c08_complete_qts_37 = complete(37, QTS);
    vh_c08_sound_qts_37 = sound(37, QTS);
    vh_c08_complete_wts_37 = complete(37, WTS);
    vh_c08_sound_wts_37 = sound(37, WTS);
    vh_c08_complete_ws_37 = complete(37, WS);
    vh_c08_sound_ws_37 = sound(37, WS);
    vh_c08_complete_qts_38 = complete(38, QTS);
    vh_c08_sound_qts_38 = sound(38, QTS);
    vh_c08_complete_wts_38 = complete(38, WTS);
    vh_c08_sound_wts_38 = sound(38, WTS);
    vh_c08_complete_ws_38 = complete(38, WS);
    vh_c08_sound_ws_38 = sound(38, WS);
    vh_c08_complete_qts_39 = complete(39, QTS);
    vh_c08_sound_qts_39 = sound(39, QTS);
    vh_c08_complete_wts_39 = complete(39, WTS);
    vh_c08_sound_wts_39 = sound(39, WTS);
    vh_c08_complete_ws_39 = complete(39, WS);
    vh_c08_sound_ws_39 = sound(39, WS);
    vh_c08_complete_qts_42 = complete(42, QTS);
    vh_c08_sound_qts_42 = sound(42, QTS);
    vh_c08_complete_wts_42 = complete(42, WTS);
    vh_c08_sound_wts_42 = sound(42, WTS);
    vh_c08_complete_ws_42 = complete(42, WS);
    vh_c08_sound_ws_42 = sound(42, WS);
    vh_c08_complete_qts_45 = complete(45, QTS);
    vh_c08_sound_qts_45 = sound(45, QTS);
    vh_c08_complete_wts_45 = complete(45, WTS);
    vh_c08_sound_wts_45 = sound(45, WTS);
    vh_c08_complete_ws_45 = complete(45, WS);
    vh_c08_sound_ws_45 = sound(45, WS);
    vh_c08_complete_qts_50 = complete(50, QTS);
    vh_c08_sound_qts_50 = sound(50, QTS);
    vh_c08_complete_wts_50 = complete(50, WTS);
    vh_c08_sound_wts_50 = sound(50, WTS);
    vh_c08_complete_ws_50 = complete(50, WS);
    vh_c08_sound_ws_50 = sound(50, WS);
    vh_c08_complete_qts_56 = complete(56, QTS);
    vh_c08_sound_qts_56 = sound(56, QTS);
    vh_c08_complete_wts_56 = complete(56, WTS);
    vh_c08_sound_wts_56 = sound(56, WTS);
    vh_c08_complete_ws_56 = complete(56, WS);
    vh_c08_sound_ws_56 = sound(56, WS);
    vh_c08_complete_qts_64 = complete(64, QTS);
    vh_c08_sound_qts_64 = sound(64, QTS);
    vh_c08_complete_wts_64 = complete(64, WTS);
    vh_c08_sound_wts_64 = sound(64, WTS);
    vh_c08_complete_ws_64 = complete(64, WS);
    vh_c08_sound_ws_64 = sound(64, WS);
}
