use super::common::*;
use super::pipe::{lines, mo, sum, ty, HALVES};
use crate::find::find_write::*;
use std::fs as vfs;
use crate::sequences::fourier::*;
use crate::sequences::matching::*;

fn tg(i: usize) -> SequenceTag {
    match i {
        0 => SequenceTag::W,
        1 => SequenceTag::X,
        2 => SequenceTag::Y,
        _ => SequenceTag::Z,
    }
}
/// the pairing with two members a, b of one half: the equation it stands for
fn eq_of(a: usize, b: usize) -> usize {
    if (a == 0 && b == 1) || (a == 1 && b == 0) || (a > 1 && b > 1) {
        0
    } else if (a == 0 && b == 2) || (a == 2 && b == 0) || (a == 1 && b == 3) || (a == 3 && b == 1) {
        1
    } else {
        2
    }
}
/// cross-correlation equation of a pairing (mirrored convention, see c02.rs)
fn cond(q: &Q, k: usize) -> bool {
    let (a, b, c, d) = [(0, 1, 3, 2), (0, 2, 1, 3), (0, 3, 2, 1)][k];
    let mut ok = true;
    for t in 1..q[0].len() {
        ok &= asy(&q[a], &q[b], t) + asy(&q[c], &q[d], t) == 0;
    }
    ok
}
fn eqv(a: &Vec<isize>, b: &Vec<isize>) -> bool {
    let mut ok = a.len() == b.len();
    if !ok {
        return false;
    }
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// correlation keys of the two halves agree exactly when the quadruple is
/// complementary and satisfies the equation of the pairing
fn direct(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let com = def_complementary(&q);
    let c = [cond(&q, 0), cond(&q, 1), cond(&q, 2)];
    for a in 0..4 {
        for b in 0..4 {
            for e in 0..4 {
                for f in 0..4 {
                    if a == b || a == e || a == f || b == e || b == f || e == f {
                        continue;
                    }
                    let l = compute_auto_correlation_pair(&q[a], &q[b]);
                    let r = compute_complementary_auto_correlations(&q[e], &q[f]);
                    check(l.len() == n / 2, "autocorrelation key of the wrong length");
                    check(eqv(&l, &r) == com, "equal autocorrelation keys do not mean complementary");
                    let l = compute_cross_correlations(&q[a], &q[b], &(tg(a), tg(b)));
                    let r = compute_complementary_cross_correlations(&q[e], &q[f], &(tg(e), tg(f)));
                    check(l.len() == n / 2, "cross-correlation key of the wrong length");
                    check(eqv(&l, &r) == c[eq_of(a, b)], "equal cross-correlation keys do not mean that the equation of the pairing holds");
                }
            }
        }
    }
    reach();
}
/// the values themselves
fn values(n: usize) {
    no_feasibility();
    let (a, b) = (pm_vec(n), pm_vec(n));
    let u = compute_auto_correlation(&a);
    let p = compute_auto_correlation_pair(&a, &b);
    check((u.len() == n / 2) & (p.len() == n / 2), "autocorrelation key of the wrong length");
    for t in 1..=n / 2 {
        check(u[t - 1] as i64 == pcc(&a, &a, t), "autocorrelation value is wrong");
        check(p[t - 1] as i64 == pcc(&a, &a, t) + pcc(&b, &b, t), "autocorrelation value of a pair is wrong");
    }
    for i in 0..4 {
        for j in 0..4 {
            if i != j {
                let x = compute_cross_correlations(&a, &b, &(tg(i), tg(j)));
                let y = compute_cross_correlations(&b, &a, &(tg(j), tg(i)));
                let z = compute_complementary_cross_correlations(&a, &b, &(tg(i), tg(j)));
                check(eqv(&x, &y), "the cross-correlation key depends on the order of the two sequences");
                check(x.len() == n / 2 && z.len() == n / 2, "cross-correlation key of the wrong length");
                for t in 1..=n / 2 {
                    let w = asy(&a, &b, t);
                    check((x[t - 1] as i64 == w) | (x[t - 1] as i64 == -w), "cross-correlation value is wrong");
                    check(z[t - 1] == -x[t - 1], "the two sides of the cross-correlation key differ by more than the sign");
                }
            }
        }
    }
    reach();
}
fn norms(d: &Vec<num_complex::Complex<f64>>) -> Vec<f64> {
    d.iter().map(|e| e.norm_sqr()).collect()
}
/// transform-based correlations are the direct ones
fn dft(n: usize) {
    no_feasibility();
    let (a, b) = (pm_vec(n), pm_vec(n));
    let (u, v) = (dft_sequence(&a), dft_sequence(&b));
    check(u.len() == n / 2 + 1, "transform of the wrong length");
    check(eqv(&compute_auto_correlation_pair_dft(&norms(&u), n, &norms(&v), n), &compute_auto_correlation_pair(&a, &b)), "transform-based autocorrelations differ from the direct ones");
    let x = compute_auto_correlation_dft(&norms(&u), n);
    check(x.len() == n, "transform-based autocorrelation of the wrong length");
    for t in 0..n {
        check(x[t] as i64 == pcc(&a, &a, t), "transform-based autocorrelation is wrong");
    }
    for i in 0..4 {
        for j in 0..4 {
            if i != j {
                let t = (tg(i), tg(j));
                check(eqv(&compute_cross_correlations_dft(&u, &v, &t, n), &compute_cross_correlations(&a, &b, &t)), "transform-based cross-correlations differ from the direct ones");
            }
        }
    }
    reach();
}
/// spectral keys of the two halves agree exactly when the quadruple is
/// complementary up to its sums, and satisfies the equation of the pairing
fn spectral(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let com = def_complementary(&q);
    let c = [cond(&q, 0), cond(&q, 1), cond(&q, 2)];
    // the sums are given in the pipeline: their squares add up to 4n
    let mut s = 0i64;
    for i in 0..4 {
        let mut r = 0i64;
        for x in &q[i] {
            r += *x as i64;
        }
        s += r * r;
    }
    let sums = s == 4 * n as i64;
    let d: Vec<Vec<num_complex::Complex<f64>>> = (0..4).map(|i| dft_sequence(&q[i])).collect();
    for (a, b, e, f) in [(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)] {
        let l = compute_psd_pair(&norms(&d[a]), &norms(&d[b]), n, EquationSide::LEFT);
        let r = compute_psd_pair(&norms(&d[e]), &norms(&d[f]), n, EquationSide::RIGHT);
        check((l.len() == n / 2) & (r.len() == n / 2), "spectral key of the wrong length");
        let mut same = true;
        for k in 0..n / 2 {
            same &= l[k].round() as isize == r[k].round() as isize;
        }
        check((same & sums) == com, "equal spectral keys do not mean complementary");
        let l = compute_cross_psd_pair(d[a].clone(), d[b].clone(), &(tg(a), tg(b)), n);
        let r = compute_cross_psd_pair(d[e].clone(), d[f].clone(), &(tg(e), tg(f)), n);
        check((l.len() == n / 2) & (r.len() == n / 2), "cross-spectral key of the wrong length");
        let mut same = true;
        for k in 0..n / 2 {
            same &= l[k].im.round() as isize == -(r[k].im.round() as isize);
        }
        check(same == c[eq_of(a, b)], "equal cross-spectral keys do not mean that the equation of the pairing holds");
    }
    reach();
}
/// cross spectra of an amicable pair vanish, and only theirs
fn amicable(n: usize) {
    no_feasibility();
    let (a, b) = (pm_vec(n), pm_vec(n));
    let mut ok = true;
    for t in 1..n {
        ok &= asy(&a, &b, t) == 0;
    }
    let (u, v) = (dft_sequence(&a), dft_sequence(&b));
    for i in 0..4 {
        for j in 0..4 {
            if i != j {
                let mut z = true;
                for c in compute_cross_psd_pair(u.clone(), v.clone(), &(tg(i), tg(j)), n) {
                    z &= (c.im < 0.0001) & (c.im > -0.0001);
                }
                check(z == ok, "the cross spectrum of a pair vanishes for other than amicable pairs");
            }
        }
    }
    reach();
}
/// the match table lists every kept pair once, under its own key
fn table(n: usize, m1: usize, m2: usize, i: usize, j: usize) {
    let mut s1 = vec![];
    let mut s2 = vec![];
    for _ in 0..m1 {
        s1.push(pm_vec(n));
    }
    for _ in 0..m2 {
        s2.push(pm_vec(n));
    }
    let tags = (tg(i), tg(j));
    let t = generate_matching_table(&s1, &s2, &tags, n);
    let mut total = 0;
    for a in &s1 {
        for b in &s2 {
            let kept = iter_over_filtered_couples(&vec![a.clone()], &vec![b.clone()], 4.0 * n as f64).count();
            total += kept;
            let k = MatchData::from(a, b, &tags);
            let mut found = 0;
            if let Some(l) = t.get(&k) {
                for (x, y) in l.iter() {
                    if std::ptr::eq(*x, a) && std::ptr::eq(*y, b) {
                        found += 1;
                    }
                }
            }
            check(found == kept, "the match table does not list a kept pair once under its key");
        }
    }
    let mut all = 0;
    for (_, l) in t.iter() {
        all += l.len();
    }
    check(all == total, "the match table lists pairs which were not kept");
    reach();
}
/// the key of the only line of a pair file
fn key_of(f: &str) -> Option<Vec<u8>> {
    let l = lines(vfs::get(f).unwrap());
    check(l.len() <= 1, "two lines for one pair");
    if l.len() == 0 {
        return None;
    }
    let mut k = vec![];
    let mut i = 0;
    while i + 1 < l[0].len() && !(l[0][i] == b':' && l[0][i + 1] == b'_') {
        k.push(l[0][i]);
        i += 1;
    }
    Some(k)
}
#[inline(never)]
fn one_quad(s: &Q, e: &Vec<bool>, t: usize, m: usize, pr: usize) {
    let n = s[0].len();
    // the quadruple and the signs of the errors are fixed on every path
    let mut q: Q = [vec![-1; n], vec![-1; n], vec![-1; n], vec![-1; n]];
    let mut plus = vec![];
    for k in 0..4 {
        for i in 0..n {
            if s[k][i] == 1 {
                plus.push((k, i));
            }
        }
    }
    for i in 0..e.len() {
        if e[i] {
            plus.push((4, i));
        }
    }
    let u = 1.0 / 16777216.0;
    let per = 2 * (n / 2 + 1);
    let mut err = vec![-u; per * e.len()];
    for (k, i) in plus {
        if k < 4 {
            q[k][i] = 1;
        } else {
            for j in 0..per {
                err[i * per + j] = u;
            }
        }
    }
    if err.len() > 0 {
        fftw::set_errors(err);
    }
    vfs::mkdirs("k");
    let d = String::from("k");
    let rs = (sum(&q[0]) as isize, sum(&q[1]) as isize, sum(&q[2]) as isize, sum(&q[3]) as isize);
    let mut keys = vec![];
    for h in 0..2 {
        let (a, b) = (HALVES[pr][2 * h], HALVES[pr][2 * h + 1]);
        write_seq_pairs((&vec![q[a].clone()], &vec![q[b].clone()]), (&tg(a), &tg(b)), ty(t), rs, n, &d, if h == 0 { EquationSide::LEFT } else { EquationSide::RIGHT }, mo(m));
        let mut f = String::from("k/pair_");
        f.push_str(["W", "X", "Y", "Z"][a]);
        f.push_str(["W", "X", "Y", "Z"][b]);
        f.push_str(".pair");
        keys.push(key_of(&f));
    }
    let equal = match (&keys[0], &keys[1]) {
        (Some(a), Some(b)) => a.len() == b.len() && a == b,
        _ => false,
    };
    check(!def_valid(&q, ty(t)) | equal, "the two halves of a valid quadruple get different keys");
    // for equal sums of squares the keys fix the spectrum at zero too
    let mut want = def_complementary(&q) | (rs.0 * rs.0 + rs.1 * rs.1 + rs.2 * rs.2 + rs.3 * rs.3 != 4 * n as isize);
    if t == 0 {
        want &= cond(&q, pr);
    }
    check(!equal | want, "equal keys although the equations do not hold");
    reach();
    let mut last = true;
    for k in 0..4 {
        for i in 0..n {
            last &= q[k][i] == 1;
        }
    }
    for x in e {
        last &= *x;
    }
    assume(last);
}
/// the keys in the pair files, with rounding errors in the transforms: errs
/// transforms in turn, each with an error of either sign
fn keys(n: usize, errs: usize, t: usize, m: usize, pr: usize) {
    paths("one_quad");
    let q = sym_quad(n);
    let e: Vec<bool> = (0..errs).map(|_| fresh()).collect();
    one_quad(&q, &e, t, m, pr);
}
harnesses! {
    vh_c12_keys_1_qts_0 = keys(1, 4, 0, 0, 0);
    vh_c12_keys_1_qts_1 = keys(1, 4, 0, 1, 1);
    vh_c12_keys_1_ws_1 = keys(1, 4, 2, 1, 2);
    vh_c12_keys_2_qts_0 = keys(2, 2, 0, 0, 2);
    vh_c12_keys_2_qts_1 = keys(2, 2, 0, 1, 0);
    vh_c12_keys_2_wts_1 = keys(2, 2, 1, 1, 1);
    vh_c12_keys_3_qts_1 = keys(3, 1, 0, 1, 0); // cost=100
    vh_c12_keys_4_qts_1 = keys(4, 0, 0, 1, 0); // tier=thorough cost=900 timeout=3000
    vh_c12_direct_1 = direct(1);
    vh_c12_direct_2 = direct(2);
    vh_c12_direct_3 = direct(3);
    vh_c12_direct_4 = direct(4);
    vh_c12_direct_5 = direct(5);
    vh_c12_direct_6 = direct(6);
    vh_c12_direct_7 = direct(7);
    vh_c12_direct_8 = direct(8);
    vh_c12_direct_9 = direct(9);
    vh_c12_direct_10 = direct(10);
    vh_c12_direct_11 = direct(11);
    vh_c12_direct_12 = direct(12);
    vh_c12_direct_13 = direct(13);
    vh_c12_direct_14 = direct(14);
    vh_c12_direct_15 = direct(15);
    vh_c12_direct_16 = direct(16);
    vh_c12_direct_18 = direct(18);
    vh_c12_direct_20 = direct(20);
    vh_c12_direct_24 = direct(24);
    vh_c12_values_1 = values(1);
    vh_c12_values_2 = values(2);
    vh_c12_values_3 = values(3);
    vh_c12_values_4 = values(4);
    vh_c12_values_5 = values(5);
    vh_c12_values_6 = values(6);
    vh_c12_values_7 = values(7);
    vh_c12_values_8 = values(8);
    vh_c12_values_9 = values(9);
    vh_c12_values_10 = values(10);
    vh_c12_values_12 = values(12);
    vh_c12_values_16 = values(16);
    vh_c12_values_21 = values(21);
    vh_c12_values_32 = values(32);
    vh_c12_dft_1 = dft(1);
    vh_c12_dft_2 = dft(2);
    vh_c12_dft_4 = dft(4);
    vh_c12_spectral_1 = spectral(1);
    vh_c12_spectral_2 = spectral(2);
    vh_c12_spectral_4 = spectral(4);
    vh_c12_amicable_1 = amicable(1);
    vh_c12_amicable_2 = amicable(2);
    vh_c12_amicable_4 = amicable(4);
    vh_c12_table_1 = table(1, 2, 2, 0, 1);
    vh_c12_table_2 = table(2, 2, 1, 2, 3);
    vh_c12_table_2b = table(2, 1, 3, 1, 2);
    vh_c12_table_4 = table(4, 1, 2, 0, 3); // cost=5
}
