use super::common::*;
use super::group::*;
use super::pipe::*;
use crate::find::find_write::*;
use crate::sequences::rowsum::*;
use crate::sequences::symmetries::*;
use std::fs as vfs;

/// the pair step, the sort and the join, before any reduction: in every rowsum
/// directory exactly the valid quadruples with that rowsum, each once
fn raw(k: usize, n: usize, m: usize, pr: usize, rev: bool) {
    write_pairs(n, ty(k), mo(m), pairing(pr));
    sort_step(&base(k, n));
    set_reverse(rev);
    let q = sym_quad(n);
    let ok = def_valid(&q, ty(k));
    let sums = [sum(&q[0]), sum(&q[1]), sum(&q[2]), sum(&q[3])];
    let mut seen = 0;
    let es = if generate_rowsums(n, ty(k)).len() == 0 { vec![] } else { dir_entries(k, n) };
    for e in es.iter() {
        let lists = get_sequences_from_dir(e);
        let (paths, order) = get_order_from_dir(e);
        let found = join_pairs_files(&paths, ty(k), &order, &lists);
        let mut rs = None;
        for r in generate_rowsums(n, ty(k)) {
            let d = rs_dir(k, n, r);
            if e.path().display().to_string().ends_with(&d[d.rfind('/').unwrap()..]) {
                rs = Some([r.0 as i64, r.1 as i64, r.2 as i64, r.3 as i64]);
            }
        }
        let rs = rs.unwrap();
        seen += 1;
        let mut cnt = 0u64;
        for f in found.iter() {
            let g = of_quadseq(f);
            cnt += same(&g, &q) as u64;
        }
        let here = (sums[0] == rs[0]) & (sums[1] == rs[1]) & (sums[2] == rs[2]) & (sums[3] == rs[3]);
        check(!(ok & here) | (cnt >= 1), "a valid quadruple is not found");
        check((ok & here) | (cnt == 0), "a quadruple is found which is not valid or has another rowsum");
        check(cnt <= 1, "a quadruple is found twice");
    }
    check(seen == generate_rowsums(n, ty(k)).len(), "not every rowsum is searched");
    reach();
}
/// the whole run, up to the result files
fn run(k: usize, n: usize, m: usize, pr: usize, rev: bool) {
    write_pairs(n, ty(k), mo(m), pairing(pr));
    sort_step(&base(k, n));
    set_reverse(rev);
    crate::find_write_quad_seq(n, ty(k));
    let mut f = base(k, n);
    f.push_str("/result.seq");
    complete(&listed(&f, n), n, &|q: &Q| def_valid(q, ty(k)), ty(k));
    if k == 1 {
        let mut f = base(k, n);
        f.push_str("/result-qts.seq");
        complete(&listed(&f, n), n, &|q: &Q| def_valid(q, ty(1)), ty(0));
    }
    reach();
}
harnesses! {
    vh_c23_raw_qts_1_0 = raw(0, 1, 1, 0, true);
    vh_c23_raw_qts_1_1 = raw(0, 1, 0, 1, false);
    vh_c23_raw_qts_1_2 = raw(0, 1, 1, 2, true);
    vh_c23_raw_qts_2_0 = raw(0, 2, 0, 0, false);
    vh_c23_raw_qts_2_1 = raw(0, 2, 1, 1, true);
    vh_c23_raw_qts_2_2 = raw(0, 2, 0, 2, false);
    vh_c23_raw_qts_3_0 = raw(0, 3, 1, 0, true);
    vh_c23_raw_qts_3_1 = raw(0, 3, 0, 1, false);
    vh_c23_raw_qts_3_2 = raw(0, 3, 1, 2, true);
    vh_c23_raw_qts_4_0 = raw(0, 4, 0, 0, false);
    vh_c23_raw_qts_4_1 = raw(0, 4, 1, 1, true);
    vh_c23_raw_qts_4_2 = raw(0, 4, 0, 2, false);
    vh_c23_raw_qts_5_0 = raw(0, 5, 1, 0, true);
    vh_c23_raw_qts_5_1 = raw(0, 5, 0, 1, false);
    vh_c23_raw_qts_5_2 = raw(0, 5, 1, 2, true);
    vh_c23_raw_qts_6_0 = raw(0, 6, 0, 0, false);
    vh_c23_raw_qts_7_1 = raw(0, 7, 0, 1, false); // cost=35
    vh_c23_run_qts_1 = run(0, 1, 0, 1, true);
    vh_c23_run_qts_2 = run(0, 2, 1, 2, false);
    vh_c23_run_qts_3 = run(0, 3, 0, 0, true);
    vh_c23_run_qts_4 = run(0, 4, 1, 1, false); // cost=13
    vh_c23_run_qts_5 = run(0, 5, 0, 2, true);
    vh_c23_raw_wts_1_0 = raw(1, 1, 0, 0, false);
    vh_c23_raw_wts_1_1 = raw(1, 1, 1, 1, true);
    vh_c23_raw_wts_1_2 = raw(1, 1, 0, 2, false);
    vh_c23_raw_wts_2_0 = raw(1, 2, 1, 0, true);
    vh_c23_raw_wts_2_1 = raw(1, 2, 0, 1, false);
    vh_c23_raw_wts_2_2 = raw(1, 2, 1, 2, true);
    vh_c23_raw_wts_3_0 = raw(1, 3, 1, 0, false);
    vh_c23_raw_wts_3_1 = raw(1, 3, 0, 1, true);
    vh_c23_raw_wts_3_2 = raw(1, 3, 1, 2, false);
    vh_c23_raw_wts_4_0 = raw(1, 4, 1, 0, true);
    vh_c23_raw_wts_4_1 = raw(1, 4, 0, 1, false);
    vh_c23_raw_wts_4_2 = raw(1, 4, 1, 2, true);
    vh_c23_raw_wts_5_0 = raw(1, 5, 1, 0, false);
    vh_c23_raw_wts_5_1 = raw(1, 5, 0, 1, true);
    vh_c23_raw_wts_5_2 = raw(1, 5, 1, 2, false);
    vh_c23_raw_wts_6_1 = raw(1, 6, 1, 1, false);
    vh_c23_raw_wts_7_2 = raw(1, 7, 1, 2, false);
    vh_c23_run_wts_1 = run(1, 1, 1, 2, false);
    vh_c23_run_wts_2 = run(1, 2, 0, 0, true); // cost=30
    vh_c23_run_wts_3 = run(1, 3, 1, 1, false);
    vh_c23_run_wts_4 = run(1, 4, 0, 2, true); // cost=40
    vh_c23_run_wts_5 = run(1, 5, 1, 0, false);
    vh_c23_raw_ws_1_0 = raw(2, 1, 1, 0, true);
    vh_c23_raw_ws_1_1 = raw(2, 1, 0, 1, false);
    vh_c23_raw_ws_1_2 = raw(2, 1, 1, 2, true);
    vh_c23_raw_ws_2_0 = raw(2, 2, 0, 0, false);
    vh_c23_raw_ws_2_1 = raw(2, 2, 1, 1, true);
    vh_c23_raw_ws_2_2 = raw(2, 2, 0, 2, false);
    vh_c23_raw_ws_3_0 = raw(2, 3, 1, 0, true);
    vh_c23_raw_ws_3_1 = raw(2, 3, 0, 1, false);
    vh_c23_raw_ws_3_2 = raw(2, 3, 1, 2, true);
    vh_c23_raw_ws_4_0 = raw(2, 4, 0, 0, false);
    vh_c23_raw_ws_4_1 = raw(2, 4, 1, 1, true);
    vh_c23_raw_ws_4_2 = raw(2, 4, 0, 2, false);
    vh_c23_raw_ws_5_0 = raw(2, 5, 1, 0, true);
    vh_c23_raw_ws_5_1 = raw(2, 5, 0, 1, false);
    vh_c23_raw_ws_5_2 = raw(2, 5, 1, 2, true);
    vh_c23_raw_ws_6_2 = raw(2, 6, 0, 2, false);
    vh_c23_raw_ws_7_0 = raw(2, 7, 1, 0, true);
    vh_c23_run_ws_1 = run(2, 1, 0, 0, true);
    vh_c23_run_ws_2 = run(2, 2, 1, 1, false);
    vh_c23_run_ws_3 = run(2, 3, 0, 2, true);
    vh_c23_run_ws_4 = run(2, 4, 1, 0, false);
    vh_c23_run_ws_5 = run(2, 5, 0, 1, true);
    vh_c23_run_qts_6 = run(0, 6, 1, 0, false); // tier=thorough cost=250 timeout=900
    vh_c23_run_qts_7 = run(0, 7, 0, 1, false); // tier=thorough cost=200 timeout=900
    vh_c23_run_wts_6 = run(1, 6, 0, 1, false); // tier=thorough cost=400 timeout=900
    vh_c23_run_wts_7 = run(1, 7, 1, 2, false); // tier=thorough cost=200 timeout=900
    vh_c23_run_ws_6 = run(2, 6, 1, 2, false); // tier=thorough cost=90 timeout=900
    vh_c23_run_ws_7 = run(2, 7, 0, 0, false);
    vh_c23_run_ws_8 = run(2, 8, 1, 1, false);
    vh_c23_run_ws_9 = run(2, 9, 0, 2, false);
    vh_c23_run_ws_10 = run(2, 10, 1, 0, false); // tier=thorough cost=350 timeout=900
}
