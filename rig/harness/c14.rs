//! The join step over files whose sequences are chosen freely.
use super::common::*;
use super::pipe::*;
use crate::sequences::rowsum::*;
use std::fs as vfs;

const T: [&str; 4] = ["W", "X", "Y", "Z"];
fn cat(parts: &[&str]) -> String {
    let mut s = String::new();
    for p in parts {
        s.push_str(p);
    }
    s
}
/// one rowsum directory: the sequence lists and two pair files in which every
/// pair has the same key
fn store(k: usize, n: usize, r: usize, h: [usize; 4], lists: &[Vec<Vec<i8>>; 4]) {
    let all = generate_rowsums(n, ty(k));
    let dir = rs_dir(k, n, all[r % all.len()]);
    vfs::mkdirs(&dir);
    for i in 0..4 {
        let mut b = vec![];
        for s in lists[i].iter() {
            for &x in s {
                b.push(if x == 1 { b'+' } else { b'-' });
            }
            b.push(b'\n');
        }
        vfs::put(&cat(&[&dir, "/seq_", T[i], ".seq"]), b);
    }
    for (a, b) in [(h[0], h[1]), (h[2], h[3])] {
        let mut t = vec![];
        for i in 0..lists[a].len() {
            for j in 0..lists[b].len() {
                for c in cat(&["4_0_-4_:_", &num_text(i as i64), "_", &num_text(j as i64), "\n"]).bytes() {
                    t.push(c);
                }
            }
        }
        vfs::put(&cat(&[&dir, "/pair_", T[a], T[b], ".pair.sorted"]), t);
    }
}
fn any_lists(n: usize, m: [usize; 4]) -> [Vec<Vec<i8>>; 4] {
    m.map(|c| (0..c).map(|_| pm_vec(n)).collect())
}
fn count(l: &[Vec<Vec<i8>>; 4], f: &dyn Fn(&Q) -> bool) -> u64 {
    let mut c = 0;
    for w in l[0].iter() {
        for x in l[1].iter() {
            for y in l[2].iter() {
                for z in l[3].iter() {
                    c += f(&[w.clone(), x.clone(), y.clone(), z.clone()]) as u64;
                }
            }
        }
    }
    c
}
#[inline(never)]
fn go(k: usize, n: usize) {
    crate::find_write_quad_seq(n, ty(k));
}
fn empty(f: &str) {
    check(has(f), "no result file");
    check(vfs::get(f).unwrap().len() == 0, "a result although no combination is valid");
}
/// no combination is valid: nothing is written
fn nothing(k: usize, n: usize, p: usize, m: [usize; 4], rev: bool) {
    paths("go");
    paths("find_write_quad_seq");
    paths("join_pairs");
    let l = any_lists(n, m);
    store(k, n, 0, HALVES[p], &l);
    assume(count(&l, &|q| def_valid(q, ty(k))) == 0);
    set_reverse(rev);
    go(k, n);
    empty(&cat(&[&base(k, n), "/result.seq"]));
    empty(&cat(&[&base(k, n), "/result.qseq"]));
    if k == 1 {
        empty(&cat(&[&base(k, n), "/result-qts.seq"]));
        empty(&cat(&[&base(k, n), "/result-qts.qseq"]));
    }
    reach();
}
/// the quadruples written one row below the other
fn listed_rows(f: &str, n: usize) -> Vec<Q> {
    check(has(f), "no result file");
    let mut r = vec![];
    let l = lines(vfs::get(f).unwrap());
    check(l.len() % 6 == 0, "a result which is not of six lines");
    for i in 0..l.len() / 6 {
        let mut q: Q = [vec![], vec![], vec![], vec![]];
        for t in 0..4 {
            let s = &l[6 * i + 1 + t];
            check(s.len() == n + 4, "a row of the wrong length");
            for j in 0..n {
                let c = s[3 + j];
                check((c == b'+') | (c == b'-'), "an entry which is neither + nor -");
                q[t].push(if c == b'+' { 1 } else { -1 });
            }
        }
        r.push(q);
    }
    r
}
#[inline(never)]
fn examine(k: usize, n: usize, p: usize, l: &[Vec<Vec<i8>>; 4], split: bool) {
    if split {
        // the hash tables need to know the entries: one path for each content
        let mut c: [Vec<Vec<i8>>; 4] = [vec![], vec![], vec![], vec![]];
        for i in 0..4 {
            for s in l[i].iter() {
                let mut plus = vec![];
                for j in 0..n {
                    if s[j] == 1 {
                        plus.push(j);
                    }
                }
                let mut v = vec![-1i8; n];
                for j in plus {
                    v[j] = 1;
                }
                c[i].push(v);
            }
        }
        store(k, n, 0, HALVES[p], &c);
    } else {
        store(k, n, 0, HALVES[p], l);
    }
    go(k, n);
    let a = listed(&cat(&[&base(k, n), "/result.seq"]), n);
    let b = listed_rows(&cat(&[&base(k, n), "/result.qseq"]), n);
    check(a.len() == b.len(), "the two result files have different numbers of results");
    for i in 0..a.len() {
        check(def_valid(&a[i], ty(k)), "a quadruple is listed which is not valid");
        check(same(&a[i], &b[i]), "the two result files differ");
    }
    if k == 1 {
        let a = listed(&cat(&[&base(k, n), "/result-qts.seq"]), n);
        let b = listed_rows(&cat(&[&base(k, n), "/result-qts.qseq"]), n);
        check(a.len() == b.len(), "the two result files have different numbers of results");
        for i in 0..a.len() {
            check(def_qts(&a[i]), "a quadruple is listed which is not quaternion type");
            check(same(&a[i], &b[i]), "the two result files differ");
        }
    }
    reach();
    if split {
        // nothing to merge: all paths but one end here
        let mut last = true;
        for x in l.iter() {
            for y in x[0].iter() {
                last &= *y == 1;
            }
        }
        assume(last);
    }
}
/// any combination may be valid: what is written is valid
fn mixed(k: usize, n: usize, p: usize, m: [usize; 4], rev: bool, fixed: usize) {
    paths("go");
    paths("examine");
    paths("find_write_quad_seq");
    paths("join_pairs");
    let mut l = any_lists(n, m);
    for i in 0..fixed {
        l[i][0] = vec![1; n];
    }
    set_reverse(rev);
    examine(k, n, p, &l, n > 1);
}
harnesses! {
    vh_c14_nothing_qts_2 = nothing(0, 2, 0, [1, 1, 1, 1], false);
    vh_c14_nothing_qts_3 = nothing(0, 3, 1, [1, 1, 1, 1], false);
    vh_c14_nothing_qts_3a = nothing(0, 3, 2, [2, 1, 1, 1], false);
    vh_c14_nothing_qts_4 = nothing(0, 4, 2, [1, 1, 1, 1], true);
    vh_c14_nothing_qts_5 = nothing(0, 5, 2, [1, 1, 1, 1], true);
    vh_c14_nothing_wts_2 = nothing(1, 2, 0, [1, 1, 1, 1], false);
    vh_c14_nothing_wts_3 = nothing(1, 3, 1, [1, 1, 1, 2], false);
    vh_c14_nothing_wts_4 = nothing(1, 4, 2, [1, 1, 1, 1], true);
    vh_c14_nothing_wts_5 = nothing(1, 5, 2, [1, 1, 1, 1], true);
    vh_c14_nothing_ws_2 = nothing(2, 2, 0, [1, 1, 1, 1], false);
    vh_c14_nothing_ws_3 = nothing(2, 3, 1, [1, 2, 1, 1], false);
    vh_c14_nothing_ws_4 = nothing(2, 4, 2, [1, 1, 1, 1], true);
    vh_c14_nothing_ws_5 = nothing(2, 5, 2, [1, 1, 1, 1], true);
    vh_c14_mixed_qts_1 = mixed(0, 1, 0, [1, 1, 1, 1], false, 0);
    vh_c14_mixed_wts_1 = mixed(1, 1, 1, [1, 1, 1, 1], false, 0);
    vh_c14_mixed_ws_1 = mixed(2, 1, 2, [1, 1, 1, 1], false, 0);
    vh_c14_mixed_qts_2 = mixed(0, 2, 0, [1, 1, 1, 1], false, 1);
    vh_c14_mixed_wts_2 = mixed(1, 2, 1, [1, 1, 1, 1], false, 2);
    vh_c14_mixed_ws_2 = mixed(2, 2, 2, [1, 1, 1, 1], false, 2);
    vh_c14_mixed_qts_1a = mixed(0, 1, 2, [2, 1, 1, 2], true, 0);
    vh_c14_mixed_wts_1a = mixed(1, 1, 0, [1, 2, 1, 2], true, 0);
    vh_c14_mixed_ws_1a = mixed(2, 1, 1, [2, 2, 1, 1], true, 0);
}
