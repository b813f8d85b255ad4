//! The pseudo-Boolean systems: one path for each pair of given sequences, the
//! assignment of the variables is symbolic on every path.
use super::common::*;
use super::pipe::*;
use crate::sequences::equations::*;

const TAGS: [SequenceTag; 4] = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
/// the sequences the variables stand for, as the comment of the system says
fn unknown(l: &str, n: usize) -> Option<[usize; 2]> {
    let _ = n;
    let a = l.find("x1 ... xn is ")?;
    let b = l.find("xn+1 ... x2n is ")?;
    let f = |c: u8| match c {
        b'W' => 0,
        b'X' => 1,
        b'Y' => 2,
        b'Z' => 3,
        _ => 4,
    };
    Some([f(l.as_bytes()[a + 13]), f(l.as_bytes()[b + 16])])
}
fn int(b: &str) -> i64 {
    let (mut r, mut neg, mut digits) = (0i64, false, 0);
    for (i, c) in b.bytes().enumerate() {
        if i == 0 && (c == b'+' || c == b'-') {
            neg = c == b'-';
            continue;
        }
        check(c >= b'0' && c <= b'9', "a number with a character which is no digit");
        r = 10 * r + (c - b'0') as i64;
        digits += 1;
    }
    check(digits > 0, "a number without digits");
    if neg {
        -r
    } else {
        r
    }
}
/// does the assignment satisfy the system
fn satisfied(text: &str, x: &[bool]) -> bool {
    let mut all = true;
    for l in text.split('\n') {
        if l.len() == 0 || l.starts_with('*') {
            continue;
        }
        check(l.ends_with(';'), "an equation which does not end with a semicolon");
        let mut sum = 0i64;
        let mut coeff: Option<i64> = None;
        let mut prod = true;
        let mut right = None;
        let mut after = false;
        for w in l[..l.len() - 1].split(' ') {
            if w.len() == 0 {
                continue;
            }
            if after {
                check(right.is_none(), "more than one right side");
                right = Some(int(w));
            } else if w.starts_with('x') {
                check(coeff.is_some(), "a variable without a coefficient");
                let k = int(&w[1..]);
                check(k >= 1 && k <= x.len() as i64, "a variable outside x1 .. x2n");
                prod &= x[k as usize - 1];
            } else {
                if let Some(c) = coeff {
                    sum += c * prod as i64;
                }
                if w == "=" {
                    after = true;
                } else {
                    coeff = Some(int(w));
                    prod = true;
                }
            }
        }
        check(right.is_some(), "an equation without a right side");
        all &= sum == right.unwrap();
    }
    all
}
#[inline(never)]
fn split(a: usize, b: usize, s: &Vec<i8>, t: &Vec<i8>, rs: (isize, isize, isize, isize)) {
    let n = s.len();
    let mut known = [vec![-1i8; n], vec![-1i8; n]];
    let mut plus = vec![];
    for i in 0..n {
        if s[i] == 1 {
            plus.push((0, i));
        }
    }
    for i in 0..n {
        if t[i] == 1 {
            plus.push((1, i));
        }
    }
    for (k, i) in plus {
        known[k][i] = 1;
    }
    let text = generate_equations(&known[0], &TAGS[a], &known[1], &TAGS[b], &SequenceType::QuaternionType, &rs);
    let mut u = None;
    for l in text.split('\n') {
        if l.starts_with('*') {
            u = unknown(l, n);
        }
    }
    check(u.is_some(), "the system does not say what its variables are");
    let u = u.unwrap();
    check(u[0] < 4 && u[1] < 4 && u[0] != u[1] && u[0] != a && u[0] != b && u[1] != a && u[1] != b, "the variables do not stand for the two other sequences");
    let x: Vec<bool> = (0..2 * n).map(|_| fresh()).collect();
    let mut q: Q = [vec![], vec![], vec![], vec![]];
    q[a] = known[0].clone();
    q[b] = known[1].clone();
    for k in 0..2 {
        for i in 0..n {
            q[u[k]].push(if x[k * n + i] { 1 } else { -1 });
        }
    }
    let r = [rs.0 as i64, rs.1 as i64, rs.2 as i64, rs.3 as i64];
    let want = def_qts(&q) & (sum(&q[u[0]]) == r[u[0]]) & (sum(&q[u[1]]) == r[u[1]]);
    let have = satisfied(&text, &x);
    check(!want | have, "a valid completion does not satisfy the system");
    check(want | !have, "an assignment which satisfies the system is no valid completion");
    reach();
    let mut last = true;
    for k in 0..n {
        last &= (known[0][k] == 1) & (known[1][k] == 1);
    }
    assume(last);
}
/// a, b the positions of the given sequences
fn system(n: usize, a: usize, b: usize, rs: (isize, isize, isize, isize)) {
    paths("split");
    let (s, t) = (pm_vec(n), pm_vec(n));
    split(a, b, &s, &t, rs);
}
/// the linear equations of the cross-correlation step alone, and single equations
#[inline(never)]
fn single(c: &Vec<i8>, right: isize, x: &Vec<bool>) {
    let t = generate_equation_from(c, right);
    let mut sum = 0i64;
    for i in 0..c.len() {
        sum += c[i] as i64 * x[i] as i64;
    }
    let have = satisfied(&t, x);
    let zero = c.iter().all(|y| *y == 0);
    check(zero | (have == (sum == right as i64)), "an equation is written which says something else");
    check(!zero | (t.len() == 0), "an equation without variables is written");
    reach();
}
fn one(c: &[i8], right: isize) {
    let x: Vec<bool> = (0..c.len()).map(|_| fresh()).collect();
    single(&c.to_vec(), right, &x);
}
harnesses! {
    vh_c17_system_1_01_0 = system(1, 0, 1, (1, -1, 1, -1));
    vh_c17_system_1_01_1 = system(1, 0, 1, (-1, 1, 1, 1));
    vh_c17_system_1_02_0 = system(1, 0, 2, (1, -1, 1, -1));
    vh_c17_system_1_02_1 = system(1, 0, 2, (-1, 1, 1, 1));
    vh_c17_system_1_03_0 = system(1, 0, 3, (1, -1, 1, -1));
    vh_c17_system_1_03_1 = system(1, 0, 3, (-1, 1, 1, 1));
    vh_c17_system_1_12_0 = system(1, 1, 2, (1, -1, 1, -1));
    vh_c17_system_1_12_1 = system(1, 1, 2, (-1, 1, 1, 1));
    vh_c17_system_1_13_0 = system(1, 1, 3, (1, -1, 1, -1));
    vh_c17_system_1_13_1 = system(1, 1, 3, (-1, 1, 1, 1));
    vh_c17_system_1_23_0 = system(1, 2, 3, (1, -1, 1, -1));
    vh_c17_system_1_23_1 = system(1, 2, 3, (-1, 1, 1, 1));
    vh_c17_system_2_01_0 = system(2, 0, 1, (0, 2, 0, -2));
    vh_c17_system_2_01_1 = system(2, 0, 1, (2, 0, 0, 2));
    vh_c17_system_2_01_2 = system(2, 0, 1, (0, 0, 2, 2));
    vh_c17_system_2_02_0 = system(2, 0, 2, (0, 2, 0, -2));
    vh_c17_system_2_02_1 = system(2, 0, 2, (2, 0, 0, 2));
    vh_c17_system_2_02_2 = system(2, 0, 2, (0, 0, 2, 2));
    vh_c17_system_2_03_0 = system(2, 0, 3, (0, 2, 0, -2));
    vh_c17_system_2_03_1 = system(2, 0, 3, (2, 0, 0, 2));
    vh_c17_system_2_03_2 = system(2, 0, 3, (0, 0, 2, 2));
    vh_c17_system_2_12_0 = system(2, 1, 2, (0, 2, 0, -2));
    vh_c17_system_2_12_1 = system(2, 1, 2, (2, 0, 0, 2));
    vh_c17_system_2_12_2 = system(2, 1, 2, (0, 0, 2, 2));
    vh_c17_system_2_13_0 = system(2, 1, 3, (0, 2, 0, -2));
    vh_c17_system_2_13_1 = system(2, 1, 3, (2, 0, 0, 2));
    vh_c17_system_2_13_2 = system(2, 1, 3, (0, 0, 2, 2));
    vh_c17_system_2_23_0 = system(2, 2, 3, (0, 2, 0, -2));
    vh_c17_system_2_23_1 = system(2, 2, 3, (2, 0, 0, 2));
    vh_c17_system_2_23_2 = system(2, 2, 3, (0, 0, 2, 2));
    vh_c17_system_3_01_0 = system(3, 0, 1, (1, -1, 1, 3));
    vh_c17_system_3_01_1 = system(3, 0, 1, (-1, 3, 1, 1));
    vh_c17_system_3_01_2 = system(3, 0, 1, (3, 1, -1, -1));
    vh_c17_system_3_02_0 = system(3, 0, 2, (1, -1, 1, 3));
    vh_c17_system_3_02_1 = system(3, 0, 2, (-1, 3, 1, 1));
    vh_c17_system_3_02_2 = system(3, 0, 2, (3, 1, -1, -1));
    vh_c17_system_3_03_0 = system(3, 0, 3, (1, -1, 1, 3));
    vh_c17_system_3_03_1 = system(3, 0, 3, (-1, 3, 1, 1));
    vh_c17_system_3_03_2 = system(3, 0, 3, (3, 1, -1, -1));
    vh_c17_system_3_12_0 = system(3, 1, 2, (1, -1, 1, 3));
    vh_c17_system_3_12_1 = system(3, 1, 2, (-1, 3, 1, 1));
    vh_c17_system_3_12_2 = system(3, 1, 2, (3, 1, -1, -1));
    vh_c17_system_3_13_0 = system(3, 1, 3, (1, -1, 1, 3));
    vh_c17_system_3_13_1 = system(3, 1, 3, (-1, 3, 1, 1));
    vh_c17_system_3_13_2 = system(3, 1, 3, (3, 1, -1, -1));
    vh_c17_system_3_23_0 = system(3, 2, 3, (1, -1, 1, 3));
    vh_c17_system_3_23_1 = system(3, 2, 3, (-1, 3, 1, 1));
    vh_c17_system_3_23_2 = system(3, 2, 3, (3, 1, -1, -1));
    vh_c17_system_4_01_0 = system(4, 0, 1, (0, 0, 0, 4));
    vh_c17_system_4_01_1 = system(4, 0, 1, (2, -2, 2, 2));
    vh_c17_system_4_01_2 = system(4, 0, 1, (4, 0, 0, 0));
    vh_c17_system_4_02_0 = system(4, 0, 2, (0, 0, 0, 4));
    vh_c17_system_4_02_1 = system(4, 0, 2, (2, -2, 2, 2));
    vh_c17_system_4_02_2 = system(4, 0, 2, (4, 0, 0, 0));
    vh_c17_system_4_03_0 = system(4, 0, 3, (0, 0, 0, 4));
    vh_c17_system_4_03_1 = system(4, 0, 3, (2, -2, 2, 2));
    vh_c17_system_4_03_2 = system(4, 0, 3, (4, 0, 0, 0));
    vh_c17_system_4_12_0 = system(4, 1, 2, (0, 0, 0, 4));
    vh_c17_system_4_12_1 = system(4, 1, 2, (2, -2, 2, 2));
    vh_c17_system_4_12_2 = system(4, 1, 2, (4, 0, 0, 0));
    vh_c17_system_4_13_0 = system(4, 1, 3, (0, 0, 0, 4));
    vh_c17_system_4_13_1 = system(4, 1, 3, (2, -2, 2, 2));
    vh_c17_system_4_13_2 = system(4, 1, 3, (4, 0, 0, 0));
    vh_c17_system_4_23_0 = system(4, 2, 3, (0, 0, 0, 4));
    vh_c17_system_4_23_1 = system(4, 2, 3, (2, -2, 2, 2));
    vh_c17_system_4_23_2 = system(4, 2, 3, (4, 0, 0, 0));
    vh_c17_system_5_01_0 = system(5, 0, 1, (1, 3, 3, 1)); // cost=70
    vh_c17_system_5_01_1 = system(5, 0, 1, (3, 1, 1, -3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_01_2 = system(5, 0, 1, (1, 1, 3, 3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_02_0 = system(5, 0, 2, (1, 3, 3, 1)); // cost=70
    vh_c17_system_5_02_1 = system(5, 0, 2, (3, 1, 1, -3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_02_2 = system(5, 0, 2, (1, 1, 3, 3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_03_0 = system(5, 0, 3, (1, 3, 3, 1)); // cost=70
    vh_c17_system_5_03_1 = system(5, 0, 3, (3, 1, 1, -3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_03_2 = system(5, 0, 3, (1, 1, 3, 3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_12_0 = system(5, 1, 2, (1, 3, 3, 1)); // cost=70
    vh_c17_system_5_12_1 = system(5, 1, 2, (3, 1, 1, -3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_12_2 = system(5, 1, 2, (1, 1, 3, 3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_13_0 = system(5, 1, 3, (1, 3, 3, 1)); // cost=70
    vh_c17_system_5_13_1 = system(5, 1, 3, (3, 1, 1, -3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_13_2 = system(5, 1, 3, (1, 1, 3, 3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_23_0 = system(5, 2, 3, (1, 3, 3, 1)); // cost=70
    vh_c17_system_5_23_1 = system(5, 2, 3, (3, 1, 1, -3)); // tier=thorough cost=70 timeout=900
    vh_c17_system_5_23_2 = system(5, 2, 3, (1, 1, 3, 3)); // tier=thorough cost=70 timeout=900
    vh_c17_single_a = one(&[1, 1, 1, -1, -1, 1, -1, 1, 1, 0, 0, 1, 0, 1], 5);
    vh_c17_single_b = one(&[0, 0, 0], 4);
    vh_c17_single_c = one(&[0, -1, 0, -3, 4, 2, -12, 9, 10], -12);
}
