use super::common::*;
use crate::sequences::fourier::*;

/// real and imaginary part of the transform at k, n in 1, 2, 4
fn dft(v: &[i8], k: usize) -> (i64, i64) {
    let n = v.len();
    let (mut re, mut im) = (0i64, 0i64);
    for j in 0..n {
        // exp(-2 pi i jk/n) in quarter turns
        match (j * k % n) * (4 / n) {
            0 => re += v[j] as i64,
            1 => im -= v[j] as i64,
            2 => re -= v[j] as i64,
            _ => im += v[j] as i64,
        }
    }
    (re, im)
}
fn psd(v: &[i8], k: usize) -> i64 {
    let (a, b) = dft(v, k);
    a * a + b * b
}
/// no part of a complementary quadruple is filtered out
fn kept(n: usize, which: usize) {
    let q = sym_quad(n);
    let com = def_complementary(&q);
    let b = 4. * n as f64;
    for i in 0..4 {
        if which == 0 {
            let l = vec![q[i].clone()];
            check(!com | (iter_over_filtered_dft(&l, b).count() == 1), "the filter discards a member of a complementary quadruple");
            continue;
        }
        for j in 0..4 {
            if i == j {
                continue;
            }
            let (l, m) = (vec![q[i].clone()], vec![q[j].clone()]);
            let c = match which {
                1 => iter_over_filtered_couples(&l, &m, b).count(),
                2 => iter_over_enumerate_filtered_couples(&l, &m, b).count(),
                _ => iter_over_enumerate_filtered_couples_psds(&l, &m, b).count(),
            };
            check(!com | (c == 1), "the filter discards half of a complementary quadruple");
        }
    }
    reach();
}
/// the same when the transform has rounding errors
fn rounded(n: usize, which: usize) {
    let u = 1.0 / 16777216.0;
    let mut e = vec![];
    for _ in 0..2 * (n / 2 + 1) {
        e.push(if fresh() { u } else { 0.0 } - if fresh() { u } else { 0.0 });
    }
    fftw::set_errors(e);
    kept(n, which);
}
fn eqs(a: &[i8], b: &[i8]) -> bool {
    let mut r = a.len() == b.len();
    if r {
        for i in 0..a.len() {
            r &= a[i] == b[i];
        }
    }
    r
}
#[inline(never)]
fn listing(n: usize, l: &Vec<Vec<i8>>, m: &Vec<Vec<i8>>) {
    let mut seen = vec![vec![0; m.len()]; l.len()];
    for p in iter_over_enumerate_filtered_couples_psds(l, m, 4. * n as f64) {
        let ((i, a), (j, b)) = (p.seq_enum1, p.seq_enum2);
        check(i < l.len() && j < m.len(), "an index outside the list");
        check(eqs(a, &l[i]) & eqs(b, &m[j]), "an index which does not belong to its sequence");
        seen[i][j] += 1;
        let len = n / 2 + 1;
        check(p.dft1.len() == len && p.dft2.len() == len && p.norm1.len() == len && p.norm2.len() == len, "a transform of the wrong length");
        for k in 0..len {
            let (x, y) = dft(&l[i], k);
            check((p.dft1[k].re == x as f64) & (p.dft1[k].im == y as f64), "a wrong transform of the first sequence");
            check(p.norm1[k] == psd(&l[i], k) as f64, "a wrong spectrum of the first sequence");
            let (x, y) = dft(&m[j], k);
            check((p.dft2[k].re == x as f64) & (p.dft2[k].im == y as f64), "a wrong transform of the second sequence");
            check(p.norm2[k] == psd(&m[j], k) as f64, "a wrong spectrum of the second sequence");
        }
    }
    for i in 0..l.len() {
        for j in 0..m.len() {
            check(seen[i][j] <= 1, "a pair is listed twice");
            let mut fits = true;
            for k in 1..n / 2 + 1 {
                fits &= psd(&l[i], k) + psd(&m[j], k) <= 4 * n as i64;
            }
            check(!fits | (seen[i][j] == 1), "a pair within the bound is discarded");
        }
    }
}
fn lists(n: usize, a: usize, b: usize) {
    paths("listing");
    let l: Vec<Vec<i8>> = (0..a).map(|_| pm_vec(n)).collect();
    let m: Vec<Vec<i8>> = (0..b).map(|_| pm_vec(n)).collect();
    listing(n, &l, &m);
    reach();
}
/// the inverse transform undoes the transform
fn inverse(n: usize) {
    let v = pm_vec(n);
    let d = dft_sequence(&v);
    check(d.len() == n / 2 + 1, "a transform of the wrong length");
    for k in 0..d.len() {
        let (x, y) = dft(&v, k);
        check((d[k].re == x as f64) & (d[k].im == y as f64), "a wrong transform");
    }
    let w = inverse_dft(&d, n);
    check(w.len() == n, "an inverse transform of the wrong length");
    for i in 0..n {
        check(w[i] == v[i] as f64, "the inverse transform does not undo the transform");
    }
    reach();
}
harnesses! {
    vh_c22_inverse_1 = inverse(1);
    vh_c22_inverse_2 = inverse(2);
    vh_c22_inverse_4 = inverse(4);
    vh_c22_single_1 = kept(1, 0);
    vh_c22_single_2 = kept(2, 0);
    vh_c22_single_4 = kept(4, 0);
    vh_c22_couples_1 = kept(1, 1);
    vh_c22_couples_2 = kept(2, 1);
    vh_c22_couples_4 = kept(4, 1);
    vh_c22_enum_1 = kept(1, 2);
    vh_c22_enum_2 = kept(2, 2);
    vh_c22_enum_4 = kept(4, 2);
    vh_c22_psds_1 = kept(1, 3);
    vh_c22_psds_2 = kept(2, 3);
    vh_c22_psds_4 = kept(4, 3);
    vh_c22_rounded_0 = rounded(2, 0);
    vh_c22_rounded_1 = rounded(2, 1);
    vh_c22_rounded_2 = rounded(2, 2);
    vh_c22_rounded_3 = rounded(2, 3);
    vh_c22_lists_1 = lists(1, 2, 3);
    vh_c22_lists_2 = lists(2, 2, 2);
    vh_c22_lists_2a = lists(2, 3, 1);
    vh_c22_lists_2b = lists(2, 1, 3);
    vh_c22_lists_4 = lists(4, 1, 1);
    vh_c22_lists_4a = lists(4, 2, 1);
    vh_c22_lists_4b = lists(4, 1, 2);
}
