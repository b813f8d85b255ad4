//! Oracles, written from the mathematical definitions only.
#![allow(dead_code)]
pub use qs::*;
pub use super::plat::*;
pub use std::collections::{HashMap, HashSet};
pub use crate::sequences::williamson::{QuadSeq, SequenceTag};
pub use crate::sequences::symmetries::SequenceType;

pub type Q = [Vec<i8>; 4];

/// four fresh +-1 sequences of length n
pub fn sym_quad(n: usize) -> Q {
    [pm_vec(n), pm_vec(n), pm_vec(n), pm_vec(n)]
}
pub fn to_quadseq(q: &Q) -> QuadSeq {
    let mut s = QuadSeq::new(q[0].len());
    s.set_all_values((&q[0], &q[1], &q[2], &q[3]));
    s
}
pub fn of_quadseq(s: &QuadSeq) -> Q {
    let (a, b, c, d) = s.sequences();
    [a, b, c, d]
}
/// periodic cross-correlation sum_i a[i+t] b[i] (all oracles use this one)
pub fn pcc(a: &[i8], b: &[i8], t: usize) -> i64 {
    let n = a.len();
    let mut r = 0i64;
    let mut i = 0;
    while i < n {
        r += (a[(i + t) % n] as i64) * (b[i] as i64);
        i += 1;
    }
    r
}
pub fn def_complementary(q: &Q) -> bool {
    let n = q[0].len();
    let mut ok = true;
    for t in 1..n {
        let mut s = 0;
        for x in q.iter() {
            s += pcc(x, x, t);
        }
        ok &= s == 0;
    }
    ok
}
pub fn def_amicable(q: &Q) -> bool {
    let n = q[0].len();
    let mut ok = true;
    for t in 1..n {
        for i in 0..4 {
            for j in (i + 1)..4 {
                ok &= pcc(&q[i], &q[j], t) == pcc(&q[j], &q[i], t);
            }
        }
    }
    ok
}
/// antisymmetric part of the cross-correlation
pub fn asy(a: &[i8], b: &[i8], t: usize) -> i64 {
    pcc(a, b, t) - pcc(b, a, t)
}
pub fn def_qcross(q: &Q) -> bool {
    let n = q[0].len();
    let mut ok = true;
    for t in 1..n {
        ok &= asy(&q[0], &q[1], t) + asy(&q[2], &q[3], t) == 0;
        ok &= asy(&q[0], &q[2], t) + asy(&q[3], &q[1], t) == 0;
        ok &= asy(&q[0], &q[3], t) + asy(&q[1], &q[2], t) == 0;
    }
    ok
}
pub fn def_symmetric(q: &Q) -> bool {
    let n = q[0].len();
    let mut ok = true;
    for x in q.iter() {
        for t in 1..n {
            ok &= x[t] == x[n - t];
        }
    }
    ok
}
pub fn def_qts(q: &Q) -> bool {
    def_complementary(q) & def_qcross(q)
}
pub fn def_wts(q: &Q) -> bool {
    def_complementary(q) & def_amicable(q)
}
pub fn def_ws(q: &Q) -> bool {
    def_complementary(q) & def_symmetric(q)
}
pub fn def_valid(q: &Q, t: SequenceType) -> bool {
    match t {
        SequenceType::QuaternionType => def_qts(q),
        SequenceType::WilliamsonType => def_wts(q),
        SequenceType::Williamson => def_ws(q),
        _ => false,
    }
}
pub fn same(a: &Q, b: &Q) -> bool {
    let mut ok = true;
    for k in 0..4 {
        ok &= a[k].len() == b[k].len();
        if a[k].len() == b[k].len() {
            for i in 0..a[k].len() {
                ok &= a[k][i] == b[k][i];
            }
        }
    }
    ok
}
/// the 24 unit quaternions by definition, in half units (s, i, j, k)
pub fn unit(c: char) -> (i8, i8, i8, i8) {
    match c {
        '+' => (2, 0, 0, 0),
        '-' => (-2, 0, 0, 0),
        'i' => (0, 2, 0, 0),
        'I' => (0, -2, 0, 0),
        'j' => (0, 0, 2, 0),
        'J' => (0, 0, -2, 0),
        'k' => (0, 0, 0, 2),
        'K' => (0, 0, 0, -2),
        // q = (1+i+j+k)/2, then q i, q j, q k
        'q' => (1, 1, 1, 1),
        'x' => (-1, 1, 1, -1),
        'y' => (-1, -1, 1, 1),
        'z' => (-1, 1, -1, 1),
        // s = (1-i-j-k)/2, then s i, s j, s k
        's' => (1, -1, -1, -1),
        'u' => (1, 1, -1, 1),
        'v' => (1, 1, 1, -1),
        'w' => (1, -1, 1, 1),
        'Q' | 'X' | 'Y' | 'Z' | 'S' | 'U' | 'V' | 'W' => {
            let (a, b, c, d) = unit(c.to_ascii_lowercase());
            (-a, -b, -c, -d)
        }
        _ => (0, 0, 0, 0),
    }
}
pub const SYM24: &str = "+-iIjJkKqQxXyYzZsSuUvVwW";
