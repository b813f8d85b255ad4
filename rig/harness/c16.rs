use super::common::*;
use crate::sequences::matrices::*;
use crate::sequences::mum::*;
use cgmath::Quaternion;
use num_complex::Complex;

type C = (f32, f32);
/// a small half-integer
fn half(bits: u32) -> f32 {
    let v = num(bits) as i32 - (1 << (bits - 1));
    v as f32 * 0.5
}
/// a small integer
fn int(bits: u32) -> f32 {
    (num(bits) as i32 - (1 << (bits - 1))) as f32
}
fn quat(bits: u32) -> [f32; 4] {
    [half(bits), half(bits), half(bits), half(bits)]
}
fn q(a: &[f32; 4]) -> Quaternion<f32> {
    Quaternion::new(a[0], a[1], a[2], a[3])
}
/// the matrix of a quaternion: i -> iX, j -> -iY, k -> iZ
fn rep(a: &[f32; 4]) -> [C; 4] {
    [(a[0], a[3]), (-a[2], a[1]), (a[2], a[1]), (a[0], -a[3])]
}
fn op(m: &[C; 4]) -> Operator {
    make_operator(m[0], m[1], m[2], m[3])
}
fn cm(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn ca(a: C, b: C) -> C {
    (a.0 + b.0, a.1 + b.1)
}
fn mm(a: &[C; 4], b: &[C; 4]) -> [C; 4] {
    [
        ca(cm(a[0], b[0]), cm(a[1], b[2])),
        ca(cm(a[0], b[1]), cm(a[1], b[3])),
        ca(cm(a[2], b[0]), cm(a[3], b[2])),
        ca(cm(a[2], b[1]), cm(a[3], b[3])),
    ]
}
fn hmul(a: &[f32; 4], b: &[f32; 4]) -> [f32; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn sym_mat(bits: u32) -> [C; 4] {
    [(int(bits), int(bits)), (int(bits), int(bits)), (int(bits), int(bits)), (int(bits), int(bits))]
}
/// the operator with the given entries, row by row
fn build(n: usize, e: &[C]) -> Operator {
    let mut r = Operator::empty(n);
    for i in 0..n {
        for j in 0..n {
            let (a, b) = e[i * n + j];
            r = r + &(computational_basis(n, i, j) * Complex::new(a, b));
        }
    }
    r
}
fn representation(bits: u32) {
    no_feasibility();
    let (a, b) = (quat(bits), quat(bits));
    let (qa, qb) = (q(&a), q(&b));
    check(quaternion_to_operator(&qa) == op(&rep(&a)), "the operator of a quaternion is not sI + ixX - iyY + izZ");
    check(quaternion_to_operator(&(qa + qb)) == quaternion_to_operator(&qa) + &quaternion_to_operator(&qb), "the operator of a sum is not the sum of the operators");
    check(quaternion_to_operator(&(qa * 2.0)) == quaternion_to_operator(&qa) * Complex::new(2.0, 0.0), "the operator of a multiple is not the multiple of the operator");
    check(quaternion_to_operator(&qa.conjugate()) == quaternion_to_operator(&qa).conjugate_transpose(), "the operator of the conjugate is not the conjugate transpose");
    reach();
}
fn product(bits: u32) {
    no_feasibility();
    let (a, b) = (quat(bits), quat(bits));
    let p = q(&a) * q(&b);
    let w = hmul(&a, &b);
    check((p.s == w[0]) & (p.v.x == w[1]) & (p.v.y == w[2]) & (p.v.z == w[3]), "the quaternion product is wrong");
    check(quaternion_to_operator(&p) == op(&mm(&rep(&a), &rep(&b))), "the operator of a product is not the product of the operators");
    reach();
}
fn algebra(bits: u32) {
    no_feasibility();
    let (a, b) = (sym_mat(bits), sym_mat(bits));
    let c = (int(bits), int(bits));
    let (x, y) = (op(&a), op(&b));
    let mut s = [(0.0, 0.0); 4];
    let mut m = s;
    let mut t = s;
    for i in 0..4 {
        s[i] = ca(a[i], b[i]);
        m[i] = cm(a[i], c);
        let z = a[(i % 2) * 2 + i / 2];
        t[i] = (z.0, -z.1);
    }
    check(x.clone() + &y == op(&s), "operator sum");
    check(x.clone() * Complex::new(c.0, c.1) == op(&m), "operator multiple");
    check(x.conjugate_transpose() == op(&t), "conjugate transpose");
    check(x.conjugate_transpose().conjugate_transpose() == x, "conjugate transpose twice");
    check(x.size() == 2, "size of a 2x2 operator");
    check((op(&a) == op(&b)) == ((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3])), "equality of operators");
    check(build(2, &a) == x, "sums of basis elements");
    reach();
}
fn tensors(bits: u32) {
    no_feasibility();
    let (a, b) = (sym_mat(bits), sym_mat(bits));
    let (x, y) = (op(&a), op(&b));
    let mut e = vec![];
    for i in 0..4 {
        for j in 0..4 {
            e.push(cm(a[(i / 2) * 2 + j / 2], b[(i % 2) * 2 + j % 2]));
        }
    }
    let t = x.tensor(&y);
    check(t.size() == 4, "size of a tensor product");
    check(t == build(4, &e), "entries of a tensor product");
    check(t.conjugate_transpose() == x.conjugate_transpose().tensor(&y.conjugate_transpose()), "conjugate transpose of a tensor product");
    let u = HMUO::new(2, x.clone()).tensor(&HMUO::new(2, y.clone()));
    check(u.matrix_size() == 4, "the recorded size of a tensor product of unitary error objects");
    check(u.value() == t, "tensor product of unitary error objects");
    reach();
}
/// unequal sizes: 3x3 by 2x2 and back
fn uneven(bits: u32) {
    no_feasibility();
    let a = sym_mat(bits);
    let mut b = vec![];
    for _ in 0..9 {
        b.push((int(bits), 0.0));
    }
    let (x, y) = (op(&a), build(3, &b));
    check(y.size() == 3, "size");
    let (mut e, mut f) = (vec![], vec![]);
    for i in 0..6 {
        for j in 0..6 {
            e.push(cm(a[(i / 3) * 2 + j / 3], b[(i % 3) * 3 + j % 3]));
            f.push(cm(b[(i / 2) * 3 + j / 2], a[(i % 2) * 2 + j % 2]));
        }
    }
    check(x.tensor(&y) == build(6, &e), "entries of a 2x2 by 3x3 tensor product");
    check(y.tensor(&x) == build(6, &f), "entries of a 3x3 by 2x2 tensor product");
    let u = HMUO::new(3, y.clone()).tensor(&HMUO::new(2, x.clone()));
    check(u.matrix_size() == 6 && u.value().size() == 6, "the recorded size of a tensor product of unitary error objects");
    reach();
}
fn qv(v: &Quaternion<f32>) -> [f32; 4] {
    [v.s, v.v.x, v.v.y, v.v.z]
}
fn cj(a: &[f32; 4]) -> [f32; 4] {
    [a[0], -a[1], -a[2], -a[3]]
}
/// measurements and unitary error operators of a quaternionic matrix
fn from_matrix(n: usize) {
    no_feasibility();
    let s = sym_quad(n);
    let d = def_qts(&s);
    let h = QHM::from_pqs(to_quadseq(&s).to_qs());
    let m = MUM::from_qhm(&h);
    check(m.matrix_size() == 2 * n && m.length() == n, "size and length of the measurement");
    let v = m.values();
    let mut sum = Operator::empty(2 * n);
    for b in 0..n {
        let mut e = vec![(0.0, 0.0); 4 * n * n];
        for j in 0..n {
            for k in 0..n {
                let r = rep(&hmul(&qv(&h.get(b, j)), &cj(&qv(&h.get(b, k)))));
                for x in 0..2 {
                    for y in 0..2 {
                        e[(x * n + j) * 2 * n + y * n + k] = r[x * 2 + y];
                    }
                }
            }
        }
        check(v[b] == build(2 * n, &e), "element of the measurement of a matrix");
        check(v[b].conjugate_transpose() == v[b], "the elements of a measurement are not Hermitian");
        sum = sum + &v[b];
    }
    let mut id = vec![(0.0, 0.0); 4 * n * n];
    for i in 0..2 * n {
        id[i * 2 * n + i] = (n as f32, 0.0);
    }
    check(!d | (sum == build(2 * n, &id)), "the elements of the measurement of a Hadamard matrix do not sum to the identity");
    let u = HMUO::from_qhm(&h);
    check(u.matrix_size() == 2 * n && u.value().size() == 2 * n, "size of the unitary error object");
    let mut e = vec![(0.0, 0.0); 4 * n * n];
    for j in 0..n {
        for k in 0..n {
            let r = rep(&cj(&qv(&h.get(j, k))));
            for x in 0..2 {
                for y in 0..2 {
                    e[(2 * j + x) * 2 * n + 2 * k + y] = r[x * 2 + y];
                }
            }
        }
    }
    check(u.value() == build(2 * n, &e), "entries of the unitary error object");
    reach();
}
harnesses! {
    vh_c16_rep_2 = representation(2);
    vh_c16_rep_3 = representation(3);
    vh_c16_rep_4 = representation(4);
    vh_c16_product_1 = product(1);
    vh_c16_product_2 = product(2);
    vh_c16_product_3 = product(3);
    vh_c16_algebra_1 = algebra(1);
    vh_c16_algebra_2 = algebra(2);
    vh_c16_algebra_3 = algebra(3);
    vh_c16_tensor_1 = tensors(1);
    vh_c16_tensor_2 = tensors(2);
    vh_c16_uneven_1 = uneven(1);
    vh_c16_uneven_2 = uneven(2);
    vh_c16_matrix_1 = from_matrix(1);
    vh_c16_matrix_2 = from_matrix(2);
    vh_c16_matrix_3 = from_matrix(3);
    vh_c16_matrix_4 = from_matrix(4);
    vh_c16_matrix_5 = from_matrix(5);
    vh_c16_matrix_6 = from_matrix(6);
    vh_c16_rep_6 = representation(6);
    vh_c16_product_5 = product(5);
}
