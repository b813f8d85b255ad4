//! The exhaustive searches. The searches have no input but the length: one symbolic
//! execution yields their list; the sequence the list is compared with is symbolic.
use super::common::*;
use super::group::*;
use super::pipe::*;
use crate::find::{find_naive, find_optim, find_unique, find_williamson};
use crate::sequences::symmetries::Symmetry;
use std::fs as vfs;

fn sy(k: usize) -> Option<Symmetry> {
    match k {
        1 => Some(Symmetry::I),
        2 => Some(Symmetry::II),
        3 => Some(Symmetry::III),
        _ => None,
    }
}
type C = (i64, i64, i64, i64);
/// a conj(b)
fn mulc(a: C, b: C) -> C {
    let (s, x, y, z) = a;
    let (t, u, v, w) = (b.0, -b.1, -b.2, -b.3);
    (s * t - x * u - y * v - z * w, s * u + x * t + y * w - z * v, s * v - x * w + y * t + z * u, s * w + x * v - y * u + z * t)
}
fn perfect(v: &[C]) -> bool {
    let n = v.len();
    let mut ok = true;
    for t in 1..n {
        let mut r = (0, 0, 0, 0);
        for i in 0..n {
            let p = mulc(v[i], v[(i + t) % n]);
            r = (r.0 + p.0, r.1 + p.1, r.2 + p.2, r.3 + p.3);
        }
        ok &= (r.0 == 0) & (r.1 == 0) & (r.2 == 0) & (r.3 == 0);
    }
    ok
}
/// a symbol chosen freely, with its number and its quaternion
fn any_symbol(all: usize) -> (u64, C) {
    let k = below(all as u64);
    let mut c = (0, 0, 0, 0);
    for (i, x) in SYM24.chars().enumerate() {
        if i < all {
            let u = unit(x);
            if k == i as u64 {
                c = (u.0 as i64, u.1 as i64, u.2 as i64, u.3 as i64);
            }
        }
    }
    (k, c)
}
fn index(c: u8, all: usize) -> u64 {
    for (i, x) in SYM24.bytes().enumerate() {
        if x == c && i < all {
            return i as u64;
        }
    }
    check(false, "a listed sequence has a symbol outside the alphabet");
    0
}
/// does the sequence have the symmetry: the second half follows from the first
fn has_symmetry(v: &[C], k: usize) -> bool {
    let n = v.len();
    let mut ok = true;
    for i in 0..n {
        let (j, neg) = match k {
            1 => (n - 1 - i, false),
            2 if i < n / 2 => (n / 2 + i, i % 2 == 1),
            3 if i < n / 2 => (n / 2 + i, (i / 2) % 2 == 1),
            _ => (i, false),
        };
        let (a, b) = (v[i], v[j]);
        ok &= if neg { (a.0 == -b.0) & (a.1 == -b.1) & (a.2 == -b.2) & (a.3 == -b.3) } else { (a.0 == b.0) & (a.1 == b.1) & (a.2 == b.2) & (a.3 == b.3) };
    }
    ok
}
fn printed() -> Vec<Vec<u8>> {
    lines(vfs::vfs().out.as_bytes())
}
/// the sequences of the list, each once
fn distinct(l: &Vec<Vec<u64>>) {
    for i in 0..l.len() {
        for j in 0..i {
            let mut same = true;
            for t in 0..l[i].len() {
                same &= l[i][t] == l[j][t];
            }
            check(!same, "a sequence is listed twice");
        }
    }
}
/// the searches over quaternion sequences which begin with 1
fn quats(which: usize, n: usize, k: usize) {
    vfs::vfs().record = true;
    let all = if which == 2 { 24 } else { 16 };
    let count = match which {
        0 => find_naive::find(n, sy(k)),
        1 => find_optim::find(n, sy(k)),
        _ => find_optim::find_q24(n, sy(k)),
    };
    let out = printed();
    check(count == out.len(), "the count is not the number of sequences listed");
    let mut l = vec![];
    for x in out.iter() {
        check(x.len() == n, "a listed sequence has another length");
        l.push(x.iter().map(|&c| index(c, all)).collect::<Vec<u64>>());
    }
    distinct(&l);
    let (mut ks, mut vs) = (vec![0], vec![(2, 0, 0, 0)]);
    for _ in 1..n {
        let (a, b) = any_symbol(all);
        ks.push(a);
        vs.push(b);
    }
    paths("cases");
    cases(&l, ks, vs, all, k);
    reach();
}
/// one path for each second entry
#[inline(never)]
fn cases(l: &Vec<Vec<u64>>, mut ks: Vec<u64>, mut vs: Vec<C>, all: usize, k: usize) {
    let n = ks.len();
    if all == 16 && k == 0 && n > 3 {
        for (i, x) in SYM24.chars().enumerate() {
            if i < all && ks[1] == i as u64 {
                let u = unit(x);
                ks[1] = i as u64;
                vs[1] = (u.0 as i64, u.1 as i64, u.2 as i64, u.3 as i64);
                compare(l, &ks, &vs, k);
                return;
            }
        }
    }
    compare(l, &ks, &vs, k);
}
#[inline(never)]
fn compare(l: &Vec<Vec<u64>>, ks: &Vec<u64>, vs: &Vec<C>, k: usize) {
    let n = ks.len();
    let mut found = false;
    for x in l.iter() {
        let mut same = true;
        for t in 0..n {
            same &= x[t] == ks[t];
        }
        found |= same;
    }
    let want = perfect(vs) & has_symmetry(vs, k);
    check(!want | found, "a perfect sequence is not found");
    check(want | !found, "a sequence is listed which is not perfect or not symmetric");
}
fn ids(q: &Q) -> Vec<u64> {
    (0..q[0].len()).map(|i| (0..4).fold(0, |a, k| 2 * a + (q[k][i] == 1) as u64)).collect()
}
/// every perfect quadruple, by brute force
fn aux(n: usize) {
    let l: Vec<Q> = find_unique::find_aux(n).iter().map(|s| of_quadseq(s)).collect();
    distinct(&l.iter().map(|q| ids(q)).collect());
    let q = sym_quad(n);
    let mut found = false;
    for x in l.iter() {
        found |= same(x, &q);
    }
    let want = def_qts(&q);
    check(!want | found, "a quaternion-type quadruple is not found");
    check(want | !found, "a quadruple is listed which is not quaternion type");
    reach();
}
/// the list up to equivalence
fn unique(n: usize) {
    let s = find_unique::find(n);
    vfs::put("u", s.into_bytes());
    complete(&listed("u", n), n, &|q: &Q| def_qts(q), SequenceType::QuaternionType);
    reach();
}
fn will(k: usize, n: usize) {
    vfs::vfs().record = true;
    let count = match k {
        2 => find_williamson::find(n, |w| w.is_symmetric() && w.is_periodic_complementary()),
        _ => find_williamson::find(n, |w| w.is_amicable() && w.is_periodic_complementary()),
    };
    let out = printed();
    check(count == out.len(), "the count is not the number of sequences listed");
    vfs::put("w", vfs::vfs().out.clone().into_bytes());
    let l = listed("w", n);
    distinct(&l.iter().map(|q| ids(q)).collect());
    let mut q = sym_quad(n);
    for x in q.iter_mut() {
        x[0] = -1;
    }
    let mut found = false;
    for x in l.iter() {
        found |= same(x, &q);
    }
    let want = def_valid(&q, ty(k));
    check(!want | found, "a quadruple is not found");
    check(want | !found, "a quadruple is listed which is not valid");
    reach();
}
harnesses! {
    vh_c21_naive_1 = quats(0, 1, 0);
    vh_c21_naive_2 = quats(0, 2, 0);
    vh_c21_naive_3 = quats(0, 3, 0);
    vh_c21_naive_4 = quats(0, 4, 0); // cost=45
    vh_c21_naive_sym1_3 = quats(0, 3, 1);
    vh_c21_naive_sym1_4 = quats(0, 4, 1);
    vh_c21_naive_sym1_5 = quats(0, 5, 1);
    vh_c21_naive_sym1_6 = quats(0, 6, 1);
    vh_c21_naive_sym2_2 = quats(0, 2, 2);
    vh_c21_naive_sym2_4 = quats(0, 4, 2);
    vh_c21_naive_sym2_6 = quats(0, 6, 2);
    vh_c21_naive_sym2_8 = quats(0, 8, 2);
    vh_c21_naive_sym3_2 = quats(0, 2, 3);
    vh_c21_naive_sym3_4 = quats(0, 4, 3);
    vh_c21_naive_sym3_6 = quats(0, 6, 3);
    vh_c21_naive_sym3_8 = quats(0, 8, 3);
    vh_c21_optim_1 = quats(1, 1, 0);
    vh_c21_optim_2 = quats(1, 2, 0);
    vh_c21_optim_3 = quats(1, 3, 0);
    vh_c21_optim_4 = quats(1, 4, 0); // cost=44
    vh_c21_optim_sym1_5 = quats(1, 5, 1);
    vh_c21_optim_sym1_6 = quats(1, 6, 1);
    vh_c21_optim_sym2_4 = quats(1, 4, 2);
    vh_c21_optim_sym2_6 = quats(1, 6, 2);
    vh_c21_optim_sym3_8 = quats(1, 8, 3);
    vh_c21_q24_1 = quats(2, 1, 0);
    vh_c21_q24_2 = quats(2, 2, 0);
    vh_c21_q24_3 = quats(2, 3, 0);
    vh_c21_q24_sym1_5 = quats(2, 5, 1);
    vh_c21_q24_sym2_6 = quats(2, 6, 2);
    vh_c21_aux_1 = aux(1);
    vh_c21_aux_2 = aux(2);
    vh_c21_aux_3 = aux(3);
    vh_c21_unique_1 = unique(1);
    vh_c21_unique_2 = unique(2);
    vh_c21_unique_3 = unique(3);
    vh_c21_ws_1 = will(2, 1);
    vh_c21_ws_2 = will(2, 2);
    vh_c21_ws_3 = will(2, 3);
    vh_c21_ws_4 = will(2, 4);
    vh_c21_wts_1 = will(1, 1);
    vh_c21_wts_2 = will(1, 2);
    vh_c21_wts_3 = will(1, 3);
    vh_c21_wts_4 = will(1, 4);
    vh_c21_naive_sym1_7 = quats(0, 7, 1);
    vh_c21_optim_sym1_8 = quats(1, 8, 1);
    vh_c21_q24_4 = quats(2, 4, 0);
    vh_c21_q24_sym1_7 = quats(2, 7, 1); // tier=thorough cost=60
    vh_c21_q24_sym3_8 = quats(2, 8, 3); // tier=thorough cost=130
    vh_c21_aux_4 = aux(4);
    vh_c21_unique_4 = unique(4);
    vh_c21_ws_5 = will(2, 5);
    vh_c21_wts_5 = will(1, 5);
}
