use super::common::*;
use crate::sequences::mum::*;
use crate::sequences::product::*;
use crate::sequences::sequence::*;
use num_complex::Complex;

type H = [i64; 4];
/// doubled coordinates
fn h(q: &cgmath::Quaternion<f32>) -> H {
    [(q.s * 2.0) as i64, (q.v.x * 2.0) as i64, (q.v.y * 2.0) as i64, (q.v.z * 2.0) as i64]
}
fn mul(a: &H, b: &H) -> H {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn def_perfect(v: &Vec<H>) -> bool {
    let n = v.len();
    let mut ok = true;
    for t in 1..n {
        let mut r = [0i64; 4];
        for i in 0..n {
            let b = v[(i + t) % n];
            let p = mul(&v[i], &[b[0], -b[1], -b[2], -b[3]]);
            for k in 0..4 {
                r[k] += p[k];
            }
        }
        ok &= (r[0] == 0) & (r[1] == 0) & (r[2] == 0) & (r[3] == 0);
    }
    ok
}
fn vals(q: &QS) -> Vec<H> {
    let mut r = vec![];
    for x in q.values().iter() {
        r.push(h(x));
    }
    r
}
fn definition(p: usize, q: usize) {
    no_feasibility();
    let a = to_quadseq(&sym_quad(p)).to_qs();
    let b = to_quadseq(&sym_quad(q)).to_qs();
    let r = sequence_product(&a, &b);
    check(r.size() == p * q && r.values().len() == p * q, "the product of two sequences has the wrong length");
    let (x, y, z) = (vals(&a), vals(&b), vals(&r));
    for t in 0..p * q {
        let w = mul(&x[t % p], &y[t % q]);
        for k in 0..4 {
            check(2 * z[t][k] == w[k], "an entry of the product is not the product of the entries");
        }
    }
    check(r.search_size() == p * q, "the product claims a symmetry");
    reach();
}
/// coprime lengths, the second factor real: perfection is preserved and reflected
fn perfect(p: usize, q: usize) {
    no_feasibility();
    let a = to_quadseq(&sym_quad(p)).to_qs();
    let s = pm_vec(q);
    let mut b = QS::new(q, None);
    for i in 0..q {
        b.set_value(cgmath::Quaternion::new(s[i] as f32, 0.0, 0.0, 0.0), i);
    }
    let (x, y) = (vals(&a), vals(&b));
    let both = def_perfect(&x) & def_perfect(&y);
    let r = sequence_product(&a, &b);
    let z = vals(&r);
    check(!both | def_perfect(&z), "the product of two perfect sequences is not perfect");
    check(!both | r.is_perfect(), "the product of two perfect sequences fails the perfection test");
    let r2 = sequence_product(&b, &a);
    check(!both | def_perfect(&vals(&r2)), "the product of two perfect sequences is not perfect (real factor first)");
    reach();
}
fn op(bits: u32) -> Operator {
    let mut f = || (num(bits) as i32 - (1 << (bits - 1))) as f32;
    make_operator((f(), f()), (f(), f()), (f(), f()), (f(), f()))
}
fn mums(p: usize, q: usize, bits: u32) {
    no_feasibility();
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..p {
        a.push(op(bits));
    }
    for _ in 0..q {
        b.push(op(bits));
    }
    let r = mum_product(&MUM::new(2, &a), &MUM::new(2, &b));
    check(r.matrix_size() == 4, "size of a product of matrix sequences");
    check(r.length() == p * q, "length of a product of matrix sequences");
    let v = r.values();
    for t in 0..p * q {
        check(v[t].size() == 4, "size of an element of the product");
        check(v[t] == a[t % p].tensor(&b[t % q]), "an element of the product is not the tensor product of the elements");
    }
    reach();
}
/// matrices of different sizes
fn mums_mixed(p: usize, q: usize) {
    no_feasibility();
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..p {
        a.push(op(1));
    }
    for _ in 0..q {
        let mut m = Operator::empty(3);
        for i in 0..3 {
            for j in 0..3 {
                m = m + &(computational_basis(3, i, j) * Complex::new(pm() as f32, 0.0));
            }
        }
        b.push(m);
    }
    let r = mum_product(&MUM::new(2, &a), &MUM::new(3, &b));
    check(r.matrix_size() == 6 && r.length() == p * q, "size or length of a product of matrix sequences");
    let v = r.values();
    for t in 0..p * q {
        check(v[t] == a[t % p].tensor(&b[t % q]), "an element of the product is not the tensor product of the elements");
    }
    reach();
}
harnesses! {
    vh_c18_def_1_1 = definition(1, 1);
    vh_c18_def_1_3 = definition(1, 3);
    vh_c18_def_2_1 = definition(2, 1);
    vh_c18_def_2_2 = definition(2, 2);
    vh_c18_def_2_3 = definition(2, 3);
    vh_c18_def_3_2 = definition(3, 2);
    vh_c18_def_3_3 = definition(3, 3);
    vh_c18_def_3_4 = definition(3, 4);
    vh_c18_def_4_3 = definition(4, 3);
    vh_c18_def_4_6 = definition(4, 6);
    vh_c18_def_5_2 = definition(5, 2);
    vh_c18_def_2_5 = definition(2, 5);
    vh_c18_def_3_5 = definition(3, 5);
    vh_c18_def_5_4 = definition(5, 4);
    vh_c18_def_7_3 = definition(7, 3);
    vh_c18_def_4_7 = definition(4, 7);
    vh_c18_def_6_4 = definition(6, 4);
    vh_c18_def_5_6 = definition(5, 6);
    vh_c18_def_7_8 = definition(7, 8);
    vh_c18_def_9_5 = definition(9, 5);
    vh_c18_perfect_1_4 = perfect(1, 4);
    vh_c18_perfect_2_1 = perfect(2, 1);
    vh_c18_perfect_3_1 = perfect(3, 1);
    vh_c18_perfect_3_4 = perfect(3, 4);
    vh_c18_perfect_4_1 = perfect(4, 1);
    vh_c18_perfect_4_3 = perfect(4, 3);
    vh_c18_perfect_5_4 = perfect(5, 4);
    vh_c18_perfect_2_3 = perfect(2, 3);
    vh_c18_perfect_3_2 = perfect(3, 2);
    vh_c18_perfect_7_4 = perfect(7, 4); // tier=thorough timeout=900
    vh_c18_perfect_5_2 = perfect(5, 2);
    vh_c18_perfect_6_1 = perfect(6, 1);
    vh_c18_mums_1_1 = mums(1, 1, 2);
    vh_c18_mums_1_2 = mums(1, 2, 2);
    vh_c18_mums_2_2 = mums(2, 2, 2);
    vh_c18_mums_2_3 = mums(2, 3, 2);
    vh_c18_mums_3_2 = mums(3, 2, 2);
    vh_c18_mums_3_4 = mums(3, 4, 2);
    vh_c18_mums_4_5 = mums(4, 5, 2);
    vh_c18_mums_4_2 = mums(4, 2, 2);
    vh_c18_mixed_1_2 = mums_mixed(1, 2);
    vh_c18_mixed_2_3 = mums_mixed(2, 3);
    vh_c18_mixed_3_2 = mums_mixed(3, 2);
    vh_c18_mixed_4_2 = mums_mixed(4, 2);
}
