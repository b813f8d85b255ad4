use super::common::*;
use super::pipe::*;
use crate::find::find_write::*;
use crate::sequences::matrix_equivalence::*;
use crate::sequences::rowsum::*;
use crate::sequences::symmetries::*;
use std::fs as vfs;

/// what a step needs, written without faults
fn before(step: usize, k: usize, n: usize) {
    vfs::mkdirs(&base(k, n));
    vfs::mkdirs("results/sequences/unique_wts");
    if step >= 4 && step <= 7 {
        write_pairs(n, ty(k), MatchOption::CORRELATION, pairing(2));
        sort_step(&base(k, n));
        if step > 4 {
            crate::find_write_quad_seq(n, ty(k));
        }
    }
}
/// the steps which write files
#[inline(never)]
fn step(s: usize, k: usize, n: usize) {
    match s {
        0 => write_rowsums(n, ty(k)),
        1 => write_pairs(n, ty(k), MatchOption::PSD, pairing(1)),
        2 => {
            let r = generate_rowsums(n, ty(k))[0];
            write_pair_single_rowsum(String::from(tyname(k)), r, n, MatchOption::CORRELATION, pairing(0), 1);
            write_pair_single_rowsum(String::from(tyname(k)), r, n, MatchOption::CORRELATION, pairing(0), 2);
        }
        3 => {
            let r = generate_rowsums(n, ty(k))[0];
            create_rowsum_dirs(String::from(tyname(k)), n, r, pairing(1));
        }
        4 => crate::find_write_quad_seq(n, ty(k)),
        5 => crate::convert_qs_to_matrices(ty(k), n),
        6 => crate::qhm_write_all(ty(k), n),
        7 => {
            let mut f = base(k, n);
            f.push_str(if k == 1 { "/result-qts.seq" } else { "/result.seq" });
            hadamard_equivalence_from_file(f, ty(k));
        }
        _ => crate::find_unique_williamson_type_of_size(n),
    }
}
type Snap = Vec<(String, Vec<u8>)>;
fn snap() -> Snap {
    let mut r = vec![];
    for n in vfs::names() {
        r.push((n.clone(), vfs::get(&n).unwrap().to_vec()));
    }
    r
}
/// the same step once more, with faults; a run which ends without a panic must
/// have written the same files
#[inline(never)]
fn again(s: usize, k: usize, n: usize, want: &Snap, mode: usize, at: Vec<bool>, kinds: Vec<u8>) {
    let v = vfs::vfs();
    // path by path: the call is fixed, what happens there stays open
    let mut p = at.len() as u64;
    for t in 0..at.len() {
        if at[t] {
            p = t as u64;
            break;
        }
    }
    match mode {
        0 | 1 => {
            v.write_at = p;
            v.write_kinds = kinds;
        }
        2 => v.create_at.push(p),
        _ => {
            v.read_at = p;
            v.read_kinds = kinds;
        }
    }
    step(s, k, n);
    let got = snap();
    for (f, c) in want.iter() {
        let mut found = false;
        for (g, d) in got.iter() {
            if f.len() == g.len() && f == g {
                found = true;
                check(c.len() == d.len(), "the run ended normally but a file is not complete");
                let m = if c.len() < d.len() { c.len() } else { d.len() };
                let mut e = true;
                for i in 0..m {
                    e &= c[i] == d[i];
                }
                check(e, "the run ended normally but a file has other contents");
            }
        }
        check(found, "the run ended normally but a file is missing");
    }
}
/// mode 0: one write call goes wrong, 1: two do, 2: creating a file fails,
/// 3: one read call goes wrong, 4: two do
fn faults(s: usize, k: usize, n: usize, mode: usize) {
    panic_ok();
    paths("again");
    paths("step");
    paths("write_all");
    paths("read_until");
    paths("fill_buf");
    paths("default_read");
    paths("BufWriter");
    // with 10 added: the step reads five sequences
    let (s, more) = (s % 10, s >= 10);
    before(s, k, n);
    if more {
        for f in ["/result.seq", "/result-qts.seq"] {
            let mut b = base(k, n);
            b.push_str(f);
            if vfs::get(&b).is_some() {
                let c = vfs::get(&b).unwrap().to_vec();
                let l = c.iter().position(|x| *x == b'\n').unwrap() + 1;
                let mut t = vec![];
                for _ in 0..5 {
                    t.extend_from_slice(&c[..l]);
                }
                vfs::put(&b, t);
            }
        }
    }
    let initial = snap();
    let v = vfs::vfs();
    v.writes = 0;
    v.creates = 0;
    v.reads = 0;
    step(s, k, n);
    let want = snap();
    check(want.len() > 0, "the step writes no file");
    let (w, c, r) = (v.writes, v.creates, v.reads);
    for (f, _) in want.iter() {
        vfs::drop_file(f);
    }
    for (f, c) in initial.iter() {
        vfs::put(f, c.clone());
    }
    v.writes = 0;
    v.creates = 0;
    v.reads = 0;
    let calls = [w, w, c, r, r][mode] + 1;
    let at: Vec<bool> = (1..calls).map(|_| fresh()).collect();
    let kinds = match mode {
        0 => vec![below(16) as u8],
        // the first call is interrupted or takes one byte, so that another follows
        1 => vec![1 + 2 * below(2) as u8, below(16) as u8],
        3 => vec![below(8) as u8],
        // a short read, so that another follows within the line
        _ => vec![2 + below(2) as u8, below(8) as u8],
    };
    again(s, k, n, &want, mode, at, kinds);
    reach();
}
harnesses! {
    vh_c15_rowsums_w = faults(0, 0, 5, 0);
    vh_c15_rowsums_c = faults(0, 1, 5, 2);
    vh_c15_pairs_w = faults(1, 0, 2, 0);
    vh_c15_pairs_c = faults(1, 0, 2, 2);
    vh_c15_single_w = faults(2, 1, 2, 0);
    vh_c15_single_c = faults(2, 1, 2, 2);
    vh_c15_create_c = faults(3, 0, 2, 2);
    vh_c15_join_w = faults(4, 0, 2, 0);
    vh_c15_join_wts_w = faults(4, 1, 2, 0);
    vh_c15_join_c = faults(4, 1, 2, 2);
    vh_c15_join_r = faults(4, 0, 2, 3);
    vh_c15_qhm_w = faults(5, 0, 2, 0);
    vh_c15_qhm_c = faults(5, 0, 2, 2);
    vh_c15_qhm_r = faults(5, 0, 2, 3);
    vh_c15_all_w = faults(6, 0, 1, 0);
    vh_c15_all_c = faults(6, 0, 2, 2);
    vh_c15_all_r = faults(6, 0, 1, 3);
    vh_c15_hm_w = faults(7, 0, 2, 0);
    vh_c15_hm_c = faults(7, 0, 2, 2);
    vh_c15_hm_r = faults(7, 1, 2, 3);
    vh_c15_unique_w = faults(8, 0, 2, 0);
    vh_c15_unique_c = faults(8, 0, 2, 2);
    vh_c15_rowsums_w2 = faults(0, 2, 7, 1);
    vh_c15_pairs_w2 = faults(1, 1, 1, 1);
    vh_c15_pairs_ws_w = faults(1, 2, 3, 0);
    vh_c15_pairs_qts_w = faults(1, 0, 3, 0);
    vh_c15_single_w2 = faults(2, 0, 1, 1);
    vh_c15_join_w2 = faults(4, 0, 1, 1);
    vh_c15_join_ws_w = faults(4, 2, 3, 0);
    vh_c15_join_ws_r = faults(4, 2, 3, 3);
    vh_c15_qhm_w2 = faults(5, 0, 1, 1);
    vh_c15_qhm_ws_w = faults(5, 2, 3, 0);
    vh_c15_hm_w2 = faults(7, 0, 1, 1);
    vh_c15_hm_wts_w = faults(7, 1, 2, 0);
    vh_c15_hm_ws_r = faults(7, 2, 3, 3);
    vh_c15_unique_w2 = faults(8, 0, 1, 1);
    vh_c15_qhm_more_w = faults(15, 0, 1, 0);
    vh_c15_qhm_more_r = faults(15, 0, 1, 3);
    vh_c15_all_more_w = faults(16, 0, 1, 0);
    vh_c15_hm_more_w = faults(17, 0, 1, 0);
    vh_c15_hm_more_r = faults(17, 1, 1, 3);
    vh_c15_join_more_w = faults(4, 0, 4, 0);
    vh_c15_join_r2 = faults(4, 0, 2, 4);
    vh_c15_join_ws_r2 = faults(4, 2, 3, 4);
    vh_c15_qhm_r2 = faults(5, 0, 2, 4);
    vh_c15_all_r2 = faults(6, 0, 1, 4);
    vh_c15_hm_r2 = faults(7, 2, 3, 4);
}
