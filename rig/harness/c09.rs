use super::common::*;
use crate::sequences::rowsum::*;

/// every sequence is listed once if its sum fits, and never otherwise
fn once(n: usize, r: isize) {
    no_feasibility();
    let s = pm_vec(n);
    let l = generate_sequences_with_rowsum(r, n);
    let mut sum = 0i64;
    for x in s.iter() {
        sum += *x as i64;
    }
    let mut c = 0u32;
    for x in l.iter() {
        check(x.len() == n, "a listed sequence has the wrong length");
        let mut e = true;
        let mut t = 0i64;
        for i in 0..n {
            e &= x[i] == s[i];
            check(x[i] == 1 || x[i] == -1, "a listed sequence has an entry other than 1 and -1");
            t += x[i] as i64;
        }
        check(t == r as i64, "a listed sequence has the wrong sum");
        c += e as u32;
    }
    check(c == (sum == r as i64) as u32, "a sequence with the sum is missing from the list or listed twice");
    reach();
}
fn all(n: usize) {
    for r in -(n as isize) - 3..=n as isize + 3 {
        once(n, r);
    }
}
fn value(n: usize) {
    let s = pm_vec(n);
    let mut t = 0i64;
    for x in s.iter() {
        t += *x as i64;
    }
    check(rowsum(s) as i64 == t, "rowsum is not the sum");
    reach();
}
harnesses! {
    vh_c09_all_1 = all(1);
    vh_c09_all_2 = all(2);
    vh_c09_all_3 = all(3);
    vh_c09_all_4 = all(4);
    vh_c09_all_5 = all(5);
    vh_c09_all_6 = all(6);
    vh_c09_once_7_m9 = once(7, -9);
    vh_c09_once_7_m8 = once(7, -8);
    vh_c09_once_7_m7 = once(7, -7);
    vh_c09_once_7_m6 = once(7, -6);
    vh_c09_once_7_m5 = once(7, -5);
    vh_c09_once_7_m4 = once(7, -4);
    vh_c09_once_7_m3 = once(7, -3);
    vh_c09_once_7_m2 = once(7, -2);
    vh_c09_once_7_m1 = once(7, -1);
    vh_c09_once_7_0 = once(7, 0);
    vh_c09_once_7_1 = once(7, 1);
    vh_c09_once_7_2 = once(7, 2);
    vh_c09_once_7_3 = once(7, 3);
    vh_c09_once_7_4 = once(7, 4);
    vh_c09_once_7_5 = once(7, 5);
    vh_c09_once_7_6 = once(7, 6);
    vh_c09_once_7_7 = once(7, 7);
    vh_c09_once_7_8 = once(7, 8);
    vh_c09_once_7_9 = once(7, 9);
    vh_c09_once_8_m10 = once(8, -10);
    vh_c09_once_8_m9 = once(8, -9);
    vh_c09_once_8_m8 = once(8, -8);
    vh_c09_once_8_m7 = once(8, -7);
    vh_c09_once_8_m6 = once(8, -6);
    vh_c09_once_8_m5 = once(8, -5);
    vh_c09_once_8_m4 = once(8, -4);
    vh_c09_once_8_m3 = once(8, -3);
    vh_c09_once_8_m2 = once(8, -2);
    vh_c09_once_8_m1 = once(8, -1);
    vh_c09_once_8_0 = once(8, 0);
    vh_c09_once_8_1 = once(8, 1);
    vh_c09_once_8_2 = once(8, 2);
    vh_c09_once_8_3 = once(8, 3);
    vh_c09_once_8_4 = once(8, 4);
    vh_c09_once_8_5 = once(8, 5);
    vh_c09_once_8_6 = once(8, 6);
    vh_c09_once_8_7 = once(8, 7);
    vh_c09_once_8_8 = once(8, 8);
    vh_c09_once_8_9 = once(8, 9);
    vh_c09_once_8_10 = once(8, 10);
    vh_c09_once_9_m11 = once(9, -11);
    vh_c09_once_9_m10 = once(9, -10);
    vh_c09_once_9_m9 = once(9, -9);
    vh_c09_once_9_m8 = once(9, -8);
    vh_c09_once_9_m7 = once(9, -7);
    vh_c09_once_9_m6 = once(9, -6);
    vh_c09_once_9_m5 = once(9, -5);
    vh_c09_once_9_m4 = once(9, -4);
    vh_c09_once_9_m3 = once(9, -3);
    vh_c09_once_9_m2 = once(9, -2);
    vh_c09_once_9_m1 = once(9, -1);
    vh_c09_once_9_0 = once(9, 0);
    vh_c09_once_9_1 = once(9, 1);
    vh_c09_once_9_2 = once(9, 2);
    vh_c09_once_9_3 = once(9, 3);
    vh_c09_once_9_4 = once(9, 4);
    vh_c09_once_9_5 = once(9, 5);
    vh_c09_once_9_6 = once(9, 6);
    vh_c09_once_9_7 = once(9, 7);
    vh_c09_once_9_8 = once(9, 8);
    vh_c09_once_9_9 = once(9, 9);
    vh_c09_once_9_10 = once(9, 10);
    vh_c09_once_9_11 = once(9, 11);
    vh_c09_once_10_m12 = once(10, -12);
    vh_c09_once_10_m10 = once(10, -10);
    vh_c09_once_10_m8 = once(10, -8);
    vh_c09_once_10_m6 = once(10, -6);
    vh_c09_once_10_m4 = once(10, -4);
    vh_c09_once_10_m2 = once(10, -2);
    vh_c09_once_10_0 = once(10, 0);
    vh_c09_once_10_2 = once(10, 2);
    vh_c09_once_10_4 = once(10, 4);
    vh_c09_once_10_6 = once(10, 6);
    vh_c09_once_10_8 = once(10, 8);
    vh_c09_once_10_10 = once(10, 10);
    vh_c09_once_10_12 = once(10, 12);
    vh_c09_once_11_m13 = once(11, -13);
    vh_c09_once_11_m11 = once(11, -11);
    vh_c09_once_11_m9 = once(11, -9);
    vh_c09_once_11_m7 = once(11, -7);
    vh_c09_once_11_m5 = once(11, -5); // cost=2
    vh_c09_once_11_m3 = once(11, -3); // cost=6
    vh_c09_once_11_m1 = once(11, -1); // cost=12
    vh_c09_once_11_1 = once(11, 1); // cost=13
    vh_c09_once_11_3 = once(11, 3); // cost=8
    vh_c09_once_11_5 = once(11, 5); // cost=3
    vh_c09_once_11_7 = once(11, 7);
    vh_c09_once_11_9 = once(11, 9);
    vh_c09_once_11_11 = once(11, 11);
    vh_c09_once_11_13 = once(11, 13);
    vh_c09_once_12_m14 = once(12, -14);
    vh_c09_once_12_m12 = once(12, -12);
    vh_c09_once_12_m10 = once(12, -10);
    vh_c09_once_12_m8 = once(12, -8);
    vh_c09_once_12_m6 = once(12, -6); // cost=6
    vh_c09_once_12_m4 = once(12, -4); // cost=20
    vh_c09_once_12_m2 = once(12, -2); // tier=thorough cost=28
    vh_c09_once_12_0 = once(12, 0); // tier=thorough cost=29
    vh_c09_once_12_2 = once(12, 2); // cost=23
    vh_c09_once_12_4 = once(12, 4); // cost=17
    vh_c09_once_12_6 = once(12, 6); // cost=6
    vh_c09_once_12_8 = once(12, 8);
    vh_c09_once_12_10 = once(12, 10);
    vh_c09_once_12_12 = once(12, 12);
    vh_c09_once_12_14 = once(12, 14);
    vh_c09_value_1 = value(1);
    vh_c09_value_2 = value(2);
    vh_c09_value_5 = value(5);
    vh_c09_value_8 = value(8);
    vh_c09_value_16 = value(16);
    vh_c09_value_31 = value(31);
    vh_c09_value_40 = value(40);
    vh_c09_value_64 = value(64);
    vh_c09_value_100 = value(100);
}
