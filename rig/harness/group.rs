//! The equivalence groups of the types, from their definitions.
use super::common::*;
use std::collections::HashSet;

pub fn neg(v: &[i8]) -> Vec<i8> {
    v.iter().map(|x| -*x).collect()
}
pub fn sw(q: &Q, i: usize, j: usize) -> Q {
    let mut r = q.clone();
    r[i] = q[j].clone();
    r[j] = q[i].clone();
    r
}
pub fn ng(q: &Q, i: usize) -> Q {
    let mut r = q.clone();
    r[i] = neg(&q[i]);
    r
}
/// all 24 permutations with their parity
pub fn perms() -> Vec<([usize; 4], bool)> {
    let mut r = vec![];
    for a in 0..4usize {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    if a != b && a != c && a != d && b != c && b != d && c != d {
                        let p = [a, b, c, d];
                        let mut odd = false;
                        for i in 0..4 {
                            for j in i + 1..4 {
                                odd ^= p[i] > p[j];
                            }
                        }
                        r.push((p, odd));
                    }
                }
            }
        }
    }
    r
}
/// is b obtained from a by permuting and negating, with an even total parity if asked
pub fn related(a: &Q, b: &Q, even: bool) -> bool {
    let mut r = false;
    let mut eq = [[false; 4]; 4];
    let mut op = [[false; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            let (mut e, mut o) = (true, true);
            for k in 0..a[i].len() {
                e &= a[i][k] == b[j][k];
                o &= a[i][k] == -b[j][k];
            }
            eq[i][j] = e;
            op[i][j] = o;
        }
    }
    for (p, odd) in perms() {
        for s in 0..16usize {
            if even && (odd ^ (s.count_ones() % 2 == 1)) {
                continue;
            }
            let mut m = true;
            for j in 0..4 {
                m &= if s >> j & 1 == 1 { op[p[j]][j] } else { eq[p[j]][j] };
            }
            r |= m;
        }
    }
    r
}
pub fn shift1(q: &Q) -> Q {
    let n = q[0].len();
    let f = |v: &Vec<i8>| (0..n).map(|i| v[(i + 1) % n]).collect::<Vec<i8>>();
    [f(&q[0]), f(&q[1]), f(&q[2]), f(&q[3])]
}
pub fn decim(q: &Q, k: usize) -> Q {
    let n = q[0].len();
    let f = |v: &Vec<i8>| (0..n).map(|i| v[(i * k) % n]).collect::<Vec<i8>>();
    [f(&q[0]), f(&q[1]), f(&q[2]), f(&q[3])]
}
pub fn alt(q: &Q) -> Q {
    let n = q[0].len();
    let f = |v: &Vec<i8>| (0..n).map(|i| if i % 2 == 1 { -v[i] } else { v[i] }).collect::<Vec<i8>>();
    [f(&q[0]), f(&q[1]), f(&q[2]), f(&q[3])]
}
pub fn halves(q: &Q, w: &[usize]) -> Q {
    let n = q[0].len();
    let mut r = q.clone();
    for k in w {
        r[*k] = (0..n).map(|i| q[*k][(i + n / 2) % n]).collect();
    }
    r
}
/// one image under each generator of the full group of the type
pub fn gens(q: &Q, t: SequenceType) -> Vec<Q> {
    let n = q[0].len();
    let qts = matches!(t, SequenceType::QuaternionType);
    let ws = matches!(t, SequenceType::Williamson);
    let mut r = vec![];
    if qts {
        r.push(sw(&ng(q, 0), 0, 1));
        r.push(sw(&ng(q, 3), 1, 2));
        r.push(sw(&ng(q, 2), 0, 3));
    } else {
        r.push(ng(q, 0));
        r.push(sw(q, 0, 1));
        r.push(sw(q, 1, 2));
        r.push(sw(q, 2, 3));
    }
    if !ws && n > 1 {
        r.push(shift1(q));
    }
    for k in 2..n {
        let (mut a, mut b) = (n, k);
        while b > 0 {
            let c = a % b;
            a = b;
            b = c;
        }
        if a == 1 {
            r.push(decim(q, k));
        }
    }
    if n % 2 == 0 {
        r.push(alt(q));
        if qts {
            r.push(halves(q, &[0, 1]));
            r.push(halves(q, &[1, 2]));
            r.push(halves(q, &[2, 3]));
        } else {
            r.push(halves(q, &[0]));
            r.push(halves(q, &[3]));
            r.push(halves(q, &[1]));
            r.push(halves(q, &[2]));
        }
    }
    r
}
/// all signed images of q under the group generated by shifts, half shifts,
/// decimations and alternations of the type, as computed here
pub fn images(q: &Q, t: SequenceType) -> Vec<Q> {
    let n = q[0].len();
    let mut l: Q = [vec![], vec![], vec![], vec![]];
    for k in 0..4 {
        for i in 0..n {
            l[k].push((k * n + i + 1) as i8);
        }
    }
    let skip = if matches!(t, SequenceType::QuaternionType) { 3 } else { 4 };
    let mut todo = vec![l];
    let mut seen: HashSet<Q> = HashSet::new();
    seen.insert(todo[0].clone());
    let mut i = 0;
    while i < todo.len() {
        for x in gens(&todo[i], t).into_iter().skip(skip) {
            if seen.insert(x.clone()) {
                todo.push(x);
            }
        }
        i += 1;
    }
    let mut r = vec![];
    for l in todo.iter() {
        let mut x: Q = [vec![], vec![], vec![], vec![]];
        for k in 0..4 {
            for e in l[k].iter() {
                let m = e.abs() as usize - 1;
                x[k].push(if *e < 0 { -q[m / n][m % n] } else { q[m / n][m % n] });
            }
        }
        r.push(x);
    }
    r
}
/// is the list a list of representatives of the classes of all quadruples which satisfy valid
pub fn complete(l: &Vec<Q>, n: usize, valid: &dyn Fn(&Q) -> bool, t: SequenceType) {
    let even = matches!(t, SequenceType::QuaternionType);
    let q = sym_quad(n);
    let mut found = false;
    for (i, a) in l.iter().enumerate() {
        check(valid(a), "a listed quadruple is not valid");
        let im = images(a, t);
        for x in im.iter() {
            found |= related(x, &q, even);
            for (j, b) in l.iter().enumerate() {
                if j > i {
                    check(!related(x, b, even), "two listed quadruples are equivalent");
                }
            }
        }
    }
    check(!valid(&q) | found, "no listed quadruple is equivalent to a valid one");
}
