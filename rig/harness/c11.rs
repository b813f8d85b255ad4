use super::common::*;
use crate::sequences::matrices::*;
use cgmath::Quaternion;

/// doubled coordinates: every quaternion in these matrices has half-integer coordinates
type H = [i64; 4];
fn h(q: &Quaternion<f32>) -> H {
    [(q.s * 2.0) as i64, (q.v.x * 2.0) as i64, (q.v.y * 2.0) as i64, (q.v.z * 2.0) as i64]
}
/// product (coordinates scaled by four), by i^2=j^2=k^2=ijk=-1
fn mul(a: &H, b: &H) -> H {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3],
        a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1],
    ]
}
fn conj(a: &H) -> H {
    [a[0], -a[1], -a[2], -a[3]]
}
fn grid(m: &QHM) -> Vec<Vec<H>> {
    let n = m.size();
    let mut g = vec![];
    for i in 0..n {
        let mut r = vec![];
        for j in 0..n {
            r.push(h(&m.get(i, j)));
        }
        g.push(r);
    }
    g
}
/// rows a and b of a matrix are orthogonal (a != b) or of square norm n (a == b)
fn rows(g: &Vec<Vec<H>>, a: usize, b: usize) -> bool {
    let n = g.len();
    let mut s = [0i64; 4];
    for k in 0..n {
        let p = mul(&g[a][k], &conj(&g[b][k]));
        for i in 0..4 {
            s[i] += p[i];
        }
    }
    let w = if a == b { 4 * n as i64 } else { 0 };
    (s[0] == w) & (s[1] == 0) & (s[2] == 0) & (s[3] == 0)
}
fn orthogonal(g: &Vec<Vec<H>>) -> bool {
    let mut ok = true;
    for a in 0..g.len() {
        for b in 0..=a {
            ok &= rows(g, a, b);
        }
    }
    ok
}
fn circulant(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let s = to_quadseq(&q).to_qs();
    let v = s.values();
    let m = QHM::from_pqs(s.clone());
    check(m.size() == n, "the circulant matrix of a quaternion sequence has the wrong order");
    for i in 0..n {
        let r = m.row(i);
        let c = m.col(i);
        check((r.len() == n) & (c.len() == n), "row or column of the wrong length");
        for j in 0..n {
            check(m.get(i, j) == v[(j + n - i) % n], "the circulant matrix of a quaternion sequence has a wrong entry");
            check((r[j] == m.get(i, j)) & (c[j] == m.get(j, i)), "row or column accessor is wrong");
        }
    }
    reach();
}
/// the matrix of a sequence is Hadamard exactly for perfect sequences, and the test says so
fn hadamard(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let m = QHM::from_pqs(to_quadseq(&q).to_qs());
    let g = grid(&m);
    let d = def_qts(&q);
    for a in 0..n {
        for b in 0..=a {
            check(!d | rows(&g, a, b), "the matrix of a perfect quaternion sequence is not Hadamard");
        }
    }
    check(m.verify() == d, "the quaternionic Hadamard test is wrong on the matrix of a sequence");
    reach();
}
/// the verdict of the test is orthogonality
fn test(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let m = QHM::from_pqs(to_quadseq(&q).to_qs());
    let v = m.verify();
    check(v == orthogonal(&grid(&m)), "the quaternionic Hadamard test does not decide orthogonality of the rows");
    reach();
}
fn normalised(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let m = QHM::from_pqs(to_quadseq(&q).to_qs());
    let g = grid(&m);
    let e = m.dephased();
    let mut k = QHM::from_pqs(to_quadseq(&q).to_qs());
    k.dephase();
    let one = Quaternion::new(1.0f32, 0.0, 0.0, 0.0);
    check((e.size() == n) & (k.size() == n), "normalising changes the order");
    for i in 0..n {
        check((e.get(i, 0) == one) & (e.get(0, i) == one), "normalising does not make the first row and column 1");
        check((k.get(i, 0) == one) & (k.get(0, i) == one), "normalising in place does not make the first row and column 1");
        for j in 0..n {
            check(e.get(i, j) == k.get(i, j), "the two normalisations differ");
            let z = m.get(i, j);
            check(h(&z) == g[i][j], "normalising a copy changes the matrix");
        }
    }
    reach();
}
/// normalising keeps the rows of a Hadamard matrix orthogonal, and says so
fn keeps(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let d = def_qts(&q);
    let e = QHM::from_pqs(to_quadseq(&q).to_qs()).dephased();
    let v = e.verify();
    check(!d | v, "normalising a quaternionic Hadamard matrix makes the test reject it");
    check(d | !v, "normalising makes a matrix Hadamard which was not");
    reach();
}
fn commuting(n: usize, norm: bool) {
    let q = sym_quad(n);
    let mut m = QHM::from_pqs(to_quadseq(&q).to_qs());
    if norm {
        m = m.dephased();
    }
    let v = m.contains_non_commuting_elements();
    let g = grid(&m);
    let mut any = false;
    for i in 1..n {
        for j in 1..n {
            for a in 1..n {
                for b in 1..n {
                    let (x, y) = (&g[i][j], &g[a][b]);
                    let (p, r) = (mul(x, y), mul(y, x));
                    any |= (p[1] != r[1]) | (p[2] != r[2]) | (p[3] != r[3]);
                }
            }
        }
    }
    check(v == any, "the non-commutativity test is wrong");
    reach();
}
harnesses! {
    vh_c11_circulant_1 = circulant(1);
    vh_c11_circulant_2 = circulant(2);
    vh_c11_circulant_3 = circulant(3);
    vh_c11_circulant_4 = circulant(4);
    vh_c11_circulant_5 = circulant(5);
    vh_c11_circulant_8 = circulant(8);
    vh_c11_circulant_13 = circulant(13);
    vh_c11_hadamard_1 = hadamard(1);
    vh_c11_hadamard_2 = hadamard(2);
    vh_c11_hadamard_3 = hadamard(3); // cost=16
    vh_c11_hadamard_4 = hadamard(4);
    vh_c11_hadamard_5 = hadamard(5); // cost=4
    vh_c11_hadamard_6 = hadamard(6); // cost=6
    vh_c11_hadamard_7 = hadamard(7); // tier=thorough cost=57
    vh_c11_hadamard_8 = hadamard(8); // tier=thorough cost=64
    vh_c11_test_2 = test(2);
    vh_c11_test_3 = test(3); // cost=22
    vh_c11_test_4 = test(4);
    vh_c11_test_5 = test(5); // cost=4
    vh_c11_test_6 = test(6); // cost=7
    vh_c11_normalised_1 = normalised(1);
    vh_c11_normalised_2 = normalised(2);
    vh_c11_normalised_3 = normalised(3);
    vh_c11_normalised_4 = normalised(4);
    vh_c11_normalised_5 = normalised(5);
    vh_c11_keeps_1 = keeps(1);
    vh_c11_keeps_2 = keeps(2);
    vh_c11_keeps_3 = keeps(3); // cost=12
    vh_c11_keeps_4 = keeps(4); // tier=thorough cost=200 timeout=400
    vh_c11_commuting_1 = commuting(1, false);
    vh_c11_commuting_2 = commuting(2, false);
    vh_c11_commuting_3 = commuting(3, false);
    vh_c11_commuting_2n = commuting(2, true);
    vh_c11_commuting_3n = commuting(3, true); // tier=thorough cost=200 timeout=400
}
