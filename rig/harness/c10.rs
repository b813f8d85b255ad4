use super::common::*;
use crate::sequences::matrices::*;

const QTS: SequenceType = SequenceType::QuaternionType;
fn row_product(h: &HM, i: usize, j: usize) -> i64 {
    let mut s = 0i64;
    for k in 0..h.size() {
        s += h.get(i, k) as i64 * h.get(j, k) as i64;
    }
    s
}
/// the matrix of a QT quadruple: entries, rows, and the way back
fn hadamard(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let v = def_qts(&q);
    let h = HM::from_williamson(&to_quadseq(&q), QTS);
    check(h.size() == 4 * n, "the matrix of a quadruple has the wrong order");
    for i in 0..4 * n {
        for j in 0..4 * n {
            check((h.get(i, j) == 1) | (h.get(i, j) == -1), "the matrix of a quadruple has an entry other than 1 and -1");
        }
    }
    for i in 0..4 * n {
        for j in 0..i {
            check(!v | (row_product(&h, i, j) == 0), "the matrix of a QT quadruple has two rows which are not orthogonal");
        }
    }
    check(same(&of_quadseq(&h.get_qts()), &q), "the quadruple read back from its matrix is another one");
    reach();
}
/// the Hadamard test accepts the matrix of a quadruple exactly when it is QT
fn accepts(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let h = HM::from_williamson(&to_quadseq(&q), QTS);
    let v = h.verify();
    let mut ok = true;
    for i in 0..4 * n {
        for j in 0..i {
            ok &= row_product(&h, i, j) == 0;
        }
    }
    check(v == ok, "the Hadamard test is wrong on the matrix of a quadruple");
    check(!def_qts(&q) | v, "the Hadamard test rejects the matrix of a QT quadruple");
    reach();
}
fn sym_matrix(m: usize) -> (HM, Vec<Vec<i8>>) {
    let mut h = HM::new(m);
    let mut a = vec![];
    for i in 0..m {
        let r = pm_vec(m);
        for j in 0..m {
            h.set_value(i, j, r[j]);
        }
        a.push(r);
    }
    (h, a)
}
fn test(m: usize) {
    no_feasibility();
    let (h, a) = sym_matrix(m);
    let mut ok = true;
    for i in 0..m {
        for j in 0..i {
            let mut s = 0i64;
            for k in 0..m {
                s += a[i][k] as i64 * a[j][k] as i64;
            }
            ok &= s == 0;
        }
    }
    check(h.verify() == ok, "the Hadamard test does not decide orthogonality of the rows");
    for i in 0..m {
        check(h.row(i).len() == m, "row: wrong length");
        for j in 0..m {
            check(h.row(i)[j] == a[i][j], "row: wrong entry");
        }
    }
    reach();
}
/// a large matrix, all rows equal up to a few entries
fn large(m: usize, free: usize) {
    no_feasibility();
    let mut h = HM::new(m);
    let mut s = m as i64;
    for j in 0..free {
        let x = pm();
        h.set_value(0, j, x);
        s += x as i64 - 1;
    }
    let mut k = HM::new(2);
    k.set_value(1, 1, -1);
    let mut ok = true;
    ok &= s == 0;
    // the other rows are all ones: they are orthogonal to no other row
    ok &= m < 3;
    check(h.verify() == ok, "the Hadamard test is wrong on a large matrix");
    reach();
}
fn normalised(m: usize) {
    no_feasibility();
    let (h, a) = sym_matrix(m);
    let mut d = h.clone();
    d.dephase();
    for e in [d, h.dephased()] {
        check(e.size() == m, "normalising changes the order");
        for i in 0..m {
            check(e.get(0, i) == 1, "normalising does not make the first row 1");
            check(e.get(i, 0) == 1, "normalising does not make the first column 1");
            for j in 0..m {
                let x = e.get(i, j) * a[i][j] * e.get(0, 0) * a[0][0];
                let y = e.get(i, 0) * a[i][0] * e.get(0, j) * a[0][j];
                check((x == y) & ((e.get(i, j) == 1) | (e.get(i, j) == -1)), "normalising does more than negate rows and columns");
            }
        }
    }
    reach();
}
fn circulant(n: usize) {
    let s = pm_vec(n);
    let h = HM::from_sequence(&s);
    check(h.size() == n, "the circulant matrix has the wrong order");
    for i in 0..n {
        for j in 0..n {
            check(h.get(i, j) == s[(j + n - i) % n], "the circulant matrix has a wrong entry");
        }
    }
    reach();
}
fn blocks(m: usize, big: usize, r: usize, c: usize) {
    let (b, a) = sym_matrix(m);
    for o in 0..4 {
        let (mut h, g) = sym_matrix(big);
        let op = match o {
            0 => OpMat::NONE,
            1 => OpMat::MINUS,
            2 => OpMat::TRANSPOSE,
            _ => OpMat::MINUSTRANSPOSE,
        };
        h.copy_block_to(&b, r, c, &op);
        for i in 0..big {
            for j in 0..big {
                let w = if i >= r && i < r + m && j >= c && j < c + m {
                    let (y, x) = (i - r, j - c);
                    match o {
                        0 => a[y][x],
                        1 => -a[y][x],
                        2 => a[x][y],
                        _ => -a[x][y],
                    }
                } else {
                    g[i][j]
                };
                check(h.get(i, j) == w, "copying a block writes a wrong entry");
            }
        }
    }
    reach();
}
fn text(m: usize) {
    let (h, a) = sym_matrix(m);
    let s = h.to_string();
    let t: Vec<u8> = s.bytes().filter(|c| *c == b'+' || *c == b'-').collect();
    check(t.len() == m * m, "the text of a matrix does not have one sign per entry");
    check(s.lines().count() == m, "the text of a matrix does not have one line per row");
    for i in 0..m {
        for j in 0..m {
            check((t[i * m + j] == b'+') == (a[i][j] == 1), "the text of a matrix has a wrong sign");
        }
    }
    reach();
}
/// the Magma text, parsed back
fn magma(m: usize) {
    let (h, a) = sym_matrix(m);
    let s = h.to_string_magma();
    let b = s.as_bytes();
    let mut want = String::from("M := Matrix([");
    for i in 0..m {
        want += if i > 0 { ",[" } else { "[" };
        for j in 0..m {
            if j > 0 {
                want += ",";
            }
            want += if decide(a[i][j] == 1) { "1" } else { "-1" };
        }
        want += "]";
    }
    want += "]);";
    check(b == want.as_bytes(), "the Magma text of a matrix is wrong");
    reach();
}
harnesses! {
    vh_c10_hadamard_1 = hadamard(1);
    vh_c10_hadamard_2 = hadamard(2);
    vh_c10_hadamard_3 = hadamard(3);
    vh_c10_hadamard_4 = hadamard(4);
    vh_c10_hadamard_5 = hadamard(5); // cost=24
    vh_c10_hadamard_6 = hadamard(6); // tier=thorough cost=200 timeout=400
    vh_c10_hadamard_7 = hadamard(7); // tier=thorough cost=200 timeout=400
    vh_c10_hadamard_8 = hadamard(8); // tier=thorough cost=200 timeout=400
    vh_c10_accepts_1 = accepts(1);
    vh_c10_accepts_2 = accepts(2);
    vh_c10_accepts_3 = accepts(3);
    vh_c10_accepts_4 = accepts(4);
    vh_c10_accepts_5 = accepts(5); // tier=thorough cost=29
    vh_c10_accepts_6 = accepts(6); // tier=thorough cost=200 timeout=400
    vh_c10_test_1 = test(1);
    vh_c10_test_2 = test(2);
    vh_c10_test_3 = test(3);
    vh_c10_test_4 = test(4);
    vh_c10_test_5 = test(5);
    vh_c10_test_6 = test(6);
    vh_c10_test_8 = test(8);
    vh_c10_large_130 = large(130, 3);
    vh_c10_large_256 = large(256, 4);
    vh_c10_normalised_1 = normalised(1);
    vh_c10_normalised_2 = normalised(2);
    vh_c10_normalised_3 = normalised(3);
    vh_c10_normalised_4 = normalised(4);
    vh_c10_normalised_6 = normalised(6);
    vh_c10_normalised_8 = normalised(8);
    vh_c10_normalised_12 = normalised(12);
    vh_c10_normalised_16 = normalised(16);
    vh_c10_circulant_1 = circulant(1);
    vh_c10_circulant_2 = circulant(2);
    vh_c10_circulant_3 = circulant(3);
    vh_c10_circulant_4 = circulant(4);
    vh_c10_circulant_5 = circulant(5);
    vh_c10_circulant_7 = circulant(7);
    vh_c10_circulant_8 = circulant(8);
    vh_c10_circulant_12 = circulant(12);
    vh_c10_circulant_16 = circulant(16);
    vh_c10_circulant_21 = circulant(21);
    vh_c10_circulant_32 = circulant(32);
    vh_c10_blocks_1 = blocks(1, 3, 1, 0);
    vh_c10_blocks_2 = blocks(2, 4, 0, 2);
    vh_c10_blocks_3 = blocks(3, 5, 2, 1);
    vh_c10_blocks_4 = blocks(4, 8, 4, 0);
    vh_c10_text_1 = text(1);
    vh_c10_text_2 = text(2);
    vh_c10_text_4 = text(4);
    vh_c10_text_8 = text(8);
    vh_c10_magma_1 = magma(1);
    vh_c10_magma_2 = magma(2);
    vh_c10_magma_3 = magma(3); // tier=thorough cost=200 timeout=400
}
