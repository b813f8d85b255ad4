use super::common::*;
use super::pipe::*;
use crate::find::find_write::*;
use crate::sequences::rowsum::*;
use crate::sequences::symmetries::*;
use crate::sequences::williamson::*;
use std::fs as vfs;

fn has(b: &str) -> bool {
    vfs::get(b).is_some()
}
/// how many of `l` equal `s` (n is the same for all)
fn count(l: &Vec<Vec<i8>>, s: &[i8]) -> u64 {
    let mut c = 0;
    for x in l {
        let mut e = x.len() == s.len();
        if e {
            for i in 0..s.len() {
                e &= x[i] == s[i];
            }
        }
        c += e as u64;
    }
    c
}
/// everything the pair step leaves in the directory of one rowsum
fn files(k: usize, n: usize, pr: usize, rs: (isize, isize, isize, isize)) {
    let d = rs_dir(k, n, rs);
    let sums = [rs.0 as i64, rs.1 as i64, rs.2 as i64, rs.3 as i64];
    let s = pm_vec(n);
    let mut lists = vec![];
    for i in 0..4 {
        let mut f = d.clone();
        f.push_str(["/seq_W.seq", "/seq_X.seq", "/seq_Y.seq", "/seq_Z.seq"][i]);
        check(has(&f), "a sequence file is missing");
        let mut l = vec![];
        for x in lines(vfs::get(&f).unwrap()) {
            check(is_pm(&x, n), "a line of a sequence file is not a sequence");
            l.push(seq_of(&x));
        }
        let want = (sum(&s) == sums[i]) & (k != 2 || def_sym(&s));
        check(count(&l, &s) == want as u64, "a sequence file does not list exactly the candidate sequences");
        lists.push(l);
    }
    let names = ["W", "X", "Y", "Z"];
    let mut nf = 0;
    for name in vfs::names() {
        if name.starts_with(&d) && name.ends_with(".pair") {
            nf += 1;
        }
    }
    check(nf == 2, "not exactly two pair files");
    for h in 0..2 {
        let (a, b) = (HALVES[pr][2 * h], HALVES[pr][2 * h + 1]);
        let mut f = d.clone();
        f.push_str("/pair_");
        f.push_str(names[a]);
        f.push_str(names[b]);
        f.push_str(".pair");
        check(has(&f), "a pair file is missing or misnamed");
    }
}
fn pairs(k: usize, n: usize, m: usize, pr: usize) {
    write_pairs(n, ty(k), mo(m), pairing(pr));
    let all = generate_rowsums(n, ty(k));
    check(dir_count(k, n) == all.len(), "not one directory per rowsum");
    for rs in all {
        files(k, n, pr, rs);
    }
    reach();
}
fn dir_count(k: usize, n: usize) -> usize {
    if generate_rowsums(n, ty(k)).len() == 0 {
        return 0;
    }
    dir_entries(k, n).len()
}
/// the two halves written one at a time: the same files with the same contents
fn singles(k: usize, n: usize, m: usize, pr: usize) {
    write_pairs(n, ty(k), mo(m), pairing(pr));
    let a = snapshot();
    for name in vfs::names() {
        vfs::drop_file(&name);
    }
    write_pair_single(ty(k), n, mo(m), pairing(pr), 2);
    write_pair_single(ty(k), n, mo(m), pairing(pr), 1);
    let b = snapshot();
    check(a.len() == b.len(), "running the pairs one at a time writes other files");
    for (x, d) in a.iter() {
        let mut found = false;
        for (y, e) in b.iter() {
            if x == y {
                found = true;
                check(d == e, "running the pairs one at a time writes other contents");
            }
        }
        check(found, "running the pairs one at a time does not write a file");
    }
    reach();
}
fn snapshot() -> Vec<(String, Vec<u8>)> {
    vfs::names().into_iter().map(|x| { let d = vfs::get(&x).unwrap().to_vec(); (x, d) }).collect()
}
/// directories prepared beforehand do not change what is there after the pair step
fn create(k: usize, n: usize, pr: usize) {
    for rs in generate_rowsums(n, ty(k)) {
        create_rowsum_dirs(String::from(tyname(k)), n, rs, pairing(pr));
    }
    for name in vfs::names() {
        check(name.starts_with(&base(k, n)), "a file is created elsewhere");
    }
    for rs in generate_rowsums(n, ty(k)) {
        write_pairs_rowsum(tyname(k), rs, n, mo(0), pairing(pr));
    }
    for rs in generate_rowsums(n, ty(k)) {
        files(k, n, pr, rs);
    }
    reach();
}
/// what the join step reads back
fn readback(k: usize, n: usize, m: usize, pr: usize, rev: bool) {
    write_pairs(n, ty(k), mo(m), pairing(pr));
    sort_step(&base(k, n));
    set_reverse(rev);
    let s = pm_vec(n);
    let at = below(1 << 6) as usize;
    let es = dir_entries(k, n);
    let mut seen = 0;
    for rs in generate_rowsums(n, ty(k)) {
        let d = rs_dir(k, n, rs);
        for e in es.iter() {
            if !e.path().display().to_string().ends_with(&d[d.rfind('/').unwrap()..]) {
                continue;
            }
            seen += 1;
            let l = get_sequences_from_dir(e);
            let sums = [rs.0 as i64, rs.1 as i64, rs.2 as i64, rs.3 as i64];
            for (i, x) in [&l.0, &l.1, &l.2, &l.3].into_iter().enumerate() {
                let want = (sum(&s) == sums[i]) & (k != 2 || def_sym(&s));
                check(count(x, &s) == want as u64, "the join step does not read back the candidate sequences");
                let mut f = d.clone();
                f.push_str(["/seq_W.seq", "/seq_X.seq", "/seq_Y.seq", "/seq_Z.seq"][i]);
                let ls = lines(vfs::get(&f).unwrap());
                check(ls.len() == x.len(), "the join step reads another number of sequences");
                // line number `at`
                let mut same = true;
                for j in 0..ls.len() {
                    if ls[j].len() == n && x[j].len() == n {
                        for c in 0..n {
                            same &= (j != at) | ((x[j][c] == 1) == (ls[j][c] == b'+'));
                        }
                    } else {
                        same = false;
                    }
                }
                check(same, "the join step reads a sequence into another place");
            }
            let ((p0, p1), t) = get_order_from_dir(e);
            let tags = [t.0, t.1, t.2, t.3];
            for (h, p) in [p0, p1].into_iter().enumerate() {
                let nm = ["W", "X", "Y", "Z"];
                let ix = |t: &SequenceTag| match t {
                    SequenceTag::W => 0,
                    SequenceTag::X => 1,
                    SequenceTag::Y => 2,
                    SequenceTag::Z => 3,
                };
                let (a, b) = (ix(&tags[2 * h]), ix(&tags[2 * h + 1]));
                let hv = HALVES[pr];
                check((a == hv[0] && b == hv[1]) || (a == hv[2] && b == hv[3]), "the join step reads another pairing");
                let mut f = d.clone();
                f.push_str("/pair_");
                f.push_str(nm[a]);
                f.push_str(nm[b]);
                f.push_str(".pair.sorted");
                let mut q = p.clone();
                if q.starts_with("./") {
                    q = q[2..].to_string();
                }
                check(q == f, "the join step takes another pair file for the pairing");
            }
            check(tags[0] != tags[2] && tags[0] != tags[3], "the join step reads the same pair twice");
        }
    }
    check(seen == es.len(), "a directory which is no rowsum");
    reach();
}
/// the rowsum list
fn rowsums(k: usize, n: usize) {
    vfs::mkdirs(&base(k, n));
    write_rowsums(n, ty(k));
    let mut f = base(k, n);
    f.push_str("/rowsums.quad");
    check(has(&f), "no rowsum file");
    let ls = lines(vfs::get(&f).unwrap());
    let rs = generate_rowsums(n, ty(k));
    check(ls.len() == rs.len(), "the rowsum file does not list every rowsum once");
    for (i, r) in rs.iter().enumerate() {
        let mut t = String::new();
        for (j, x) in [r.0, r.1, r.2, r.3].into_iter().enumerate() {
            if j > 0 {
                t.push(' ');
            }
            t.push_str(&num_text(x as i64));
        }
        check(ls[i] == t.as_bytes(), "a line of the rowsum file is wrong");
    }
    reach();
}
/// pair files of many lines: every pair once, in the order of the lists
fn many(k: usize, m: usize, side: usize, a: usize, b: usize) {
    let v = pm_vec(1);
    let s = if v[0] == 1 { 1isize } else { -1 };
    let l = vec![v.clone(); a];
    let r = vec![v.clone(); b];
    vfs::mkdirs("many");
    let c = write_seq_pairs((&l, &r), (&SequenceTag::W, &SequenceTag::X), ty(k), (s, s, s, s), 1, &String::from("many"), if side == 0 { EquationSide::LEFT } else { EquationSide::RIGHT }, mo(m));
    check(c == (a * b) as u64, "a wrong number of pairs");
    let t = vfs::get("many/pair_WX.pair").unwrap().to_vec();
    let t = String::from_utf8(t).unwrap();
    let mut i = 0;
    for x in t.lines() {
        let mut e = String::from(":_");
        e.push_str(&(i / b).to_string());
        e.push('_');
        e.push_str(&(i % b).to_string());
        check(x.ends_with(e.as_str()), "a pair file does not list every pair exactly once");
        i += 1;
    }
    check(i == a * b, "a pair file does not list every pair exactly once");
    reach();
}
harnesses! {
    vh_c19_many_0 = many(0, 0, 0, 32, 32);
    vh_c19_many_1 = many(0, 1, 1, 32, 32);
    vh_c19_many_2 = many(1, 1, 0, 50, 41);
    vh_c19_many_3 = many(2, 0, 1, 1000, 1);

    vh_c19_pairs_qts_1_0 = pairs(0, 1, 1, 0);
    vh_c19_pairs_qts_1_1 = pairs(0, 1, 0, 1);
    vh_c19_pairs_qts_1_2 = pairs(0, 1, 1, 2);
    vh_c19_pairs_qts_2_0 = pairs(0, 2, 0, 0);
    vh_c19_pairs_qts_2_1 = pairs(0, 2, 1, 1);
    vh_c19_pairs_qts_2_2 = pairs(0, 2, 0, 2);
    vh_c19_pairs_qts_3_0 = pairs(0, 3, 1, 0);
    vh_c19_pairs_qts_3_1 = pairs(0, 3, 0, 1);
    vh_c19_pairs_qts_3_2 = pairs(0, 3, 1, 2);
    vh_c19_pairs_qts_4_0 = pairs(0, 4, 0, 0);
    vh_c19_pairs_qts_4_1 = pairs(0, 4, 1, 1);
    vh_c19_pairs_qts_4_2 = pairs(0, 4, 0, 2);
    vh_c19_pairs_qts_5_0 = pairs(0, 5, 1, 0);
    vh_c19_pairs_qts_5_1 = pairs(0, 5, 0, 1);
    vh_c19_pairs_qts_5_2 = pairs(0, 5, 1, 2);
    vh_c19_pairs_qts_6_0 = pairs(0, 6, 0, 0);
    vh_c19_pairs_qts_6_1 = pairs(0, 6, 1, 1);
    vh_c19_pairs_qts_6_2 = pairs(0, 6, 0, 2);
    vh_c19_pairs_qts_7_0 = pairs(0, 7, 1, 0);
    vh_c19_pairs_qts_7_1 = pairs(0, 7, 0, 1);
    vh_c19_pairs_qts_7_2 = pairs(0, 7, 1, 2);
    vh_c19_pairs_qts_8_0 = pairs(0, 8, 0, 0);
    vh_c19_pairs_qts_8_1 = pairs(0, 8, 1, 1);
    vh_c19_pairs_qts_8_2 = pairs(0, 8, 0, 2);
    vh_c19_pairs_qts_9_0 = pairs(0, 9, 1, 0); // cost=30
    vh_c19_pairs_qts_10_1 = pairs(0, 10, 1, 1); // tier=thorough cost=80 timeout=600
    vh_c19_single_qts_1 = singles(0, 1, 1, 1);
    vh_c19_read_qts_1_a = readback(0, 1, 1, 2, false);
    vh_c19_read_qts_1_b = readback(0, 1, 0, 0, true);
    vh_c19_create_qts_1 = create(0, 1, 1);
    vh_c19_single_qts_2 = singles(0, 2, 0, 2);
    vh_c19_read_qts_2_a = readback(0, 2, 0, 0, false);
    vh_c19_read_qts_2_b = readback(0, 2, 1, 1, true);
    vh_c19_create_qts_2 = create(0, 2, 2);
    vh_c19_single_qts_3 = singles(0, 3, 1, 0);
    vh_c19_read_qts_3_a = readback(0, 3, 1, 1, false);
    vh_c19_read_qts_3_b = readback(0, 3, 0, 2, true);
    vh_c19_create_qts_3 = create(0, 3, 0);
    vh_c19_single_qts_4 = singles(0, 4, 0, 1);
    vh_c19_read_qts_4_a = readback(0, 4, 0, 2, false);
    vh_c19_read_qts_4_b = readback(0, 4, 1, 0, true);
    vh_c19_create_qts_4 = create(0, 4, 1);
    vh_c19_single_qts_5 = singles(0, 5, 1, 2);
    vh_c19_read_qts_5_a = readback(0, 5, 1, 0, false);
    vh_c19_read_qts_5_b = readback(0, 5, 0, 1, true);
    vh_c19_create_qts_5 = create(0, 5, 2);
    vh_c19_single_qts_6 = singles(0, 6, 0, 0);
    vh_c19_read_qts_6_a = readback(0, 6, 0, 1, false);
    vh_c19_read_qts_6_b = readback(0, 6, 1, 2, true);
    vh_c19_create_qts_6 = create(0, 6, 0);
    vh_c19_single_qts_7 = singles(0, 7, 1, 1);
    vh_c19_read_qts_7_a = readback(0, 7, 1, 2, false);
    vh_c19_read_qts_7_b = readback(0, 7, 0, 0, true);
    vh_c19_create_qts_7 = create(0, 7, 1);
    vh_c19_rowsums_qts_1 = rowsums(0, 1);
    vh_c19_rowsums_qts_2 = rowsums(0, 2);
    vh_c19_rowsums_qts_3 = rowsums(0, 3);
    vh_c19_rowsums_qts_5 = rowsums(0, 5);
    vh_c19_rowsums_qts_8 = rowsums(0, 8);
    vh_c19_rowsums_qts_13 = rowsums(0, 13);
    vh_c19_rowsums_qts_21 = rowsums(0, 21);
    vh_c19_rowsums_qts_37 = rowsums(0, 37);
    vh_c19_rowsums_qts_60 = rowsums(0, 60);
    vh_c19_pairs_wts_1_1 = pairs(1, 1, 0, 1);
    vh_c19_pairs_wts_2_2 = pairs(1, 2, 0, 2);
    vh_c19_pairs_wts_3_0 = pairs(1, 3, 1, 0);
    vh_c19_pairs_wts_4_1 = pairs(1, 4, 1, 1);
    vh_c19_pairs_wts_5_2 = pairs(1, 5, 1, 2);
    vh_c19_pairs_wts_6_0 = pairs(1, 6, 0, 0);
    vh_c19_pairs_wts_7_1 = pairs(1, 7, 0, 1);
    vh_c19_pairs_wts_8_2 = pairs(1, 8, 0, 2);
    vh_c19_pairs_wts_9_0 = pairs(1, 9, 1, 0); // cost=30
    vh_c19_pairs_wts_10_1 = pairs(1, 10, 1, 1); // tier=thorough cost=80 timeout=600
    vh_c19_single_wts_1 = singles(1, 1, 0, 2);
    vh_c19_read_wts_1_a = readback(1, 1, 0, 0, false);
    vh_c19_read_wts_1_b = readback(1, 1, 1, 1, true);
    vh_c19_create_wts_1 = create(1, 1, 2);
    vh_c19_single_wts_2 = singles(1, 2, 1, 0);
    vh_c19_read_wts_2_a = readback(1, 2, 1, 1, false);
    vh_c19_read_wts_2_b = readback(1, 2, 0, 2, true);
    vh_c19_create_wts_2 = create(1, 2, 0);
    vh_c19_single_wts_3 = singles(1, 3, 0, 1);
    vh_c19_read_wts_3_a = readback(1, 3, 0, 2, false);
    vh_c19_read_wts_3_b = readback(1, 3, 1, 0, true);
    vh_c19_create_wts_3 = create(1, 3, 1);
    vh_c19_single_wts_4 = singles(1, 4, 1, 2);
    vh_c19_read_wts_4_a = readback(1, 4, 1, 0, false);
    vh_c19_read_wts_4_b = readback(1, 4, 0, 1, true);
    vh_c19_create_wts_4 = create(1, 4, 2);
    vh_c19_single_wts_5 = singles(1, 5, 0, 0);
    vh_c19_read_wts_5_a = readback(1, 5, 0, 1, false);
    vh_c19_read_wts_5_b = readback(1, 5, 1, 2, true);
    vh_c19_create_wts_5 = create(1, 5, 0);
    vh_c19_single_wts_6 = singles(1, 6, 1, 1);
    vh_c19_read_wts_6_a = readback(1, 6, 1, 2, false);
    vh_c19_read_wts_6_b = readback(1, 6, 0, 0, true);
    vh_c19_create_wts_6 = create(1, 6, 1);
    vh_c19_single_wts_7 = singles(1, 7, 0, 2);
    vh_c19_read_wts_7_a = readback(1, 7, 0, 0, false);
    vh_c19_read_wts_7_b = readback(1, 7, 1, 1, true);
    vh_c19_create_wts_7 = create(1, 7, 2);
    vh_c19_rowsums_wts_1 = rowsums(1, 1);
    vh_c19_rowsums_wts_2 = rowsums(1, 2);
    vh_c19_rowsums_wts_3 = rowsums(1, 3);
    vh_c19_rowsums_wts_5 = rowsums(1, 5);
    vh_c19_rowsums_wts_8 = rowsums(1, 8);
    vh_c19_rowsums_wts_13 = rowsums(1, 13);
    vh_c19_rowsums_wts_21 = rowsums(1, 21);
    vh_c19_rowsums_wts_37 = rowsums(1, 37);
    vh_c19_rowsums_wts_60 = rowsums(1, 60);
    vh_c19_pairs_ws_1_1 = pairs(2, 1, 0, 1);
    vh_c19_pairs_ws_2_2 = pairs(2, 2, 0, 2);
    vh_c19_pairs_ws_3_0 = pairs(2, 3, 1, 0);
    vh_c19_pairs_ws_4_1 = pairs(2, 4, 1, 1);
    vh_c19_pairs_ws_5_2 = pairs(2, 5, 1, 2);
    vh_c19_pairs_ws_6_0 = pairs(2, 6, 0, 0);
    vh_c19_pairs_ws_7_1 = pairs(2, 7, 0, 1);
    vh_c19_pairs_ws_8_2 = pairs(2, 8, 0, 2);
    vh_c19_pairs_ws_9_0 = pairs(2, 9, 1, 0); // cost=30
    vh_c19_pairs_ws_10_1 = pairs(2, 10, 1, 1); // tier=thorough cost=80 timeout=600
    vh_c19_single_ws_1 = singles(2, 1, 1, 0);
    vh_c19_read_ws_1_a = readback(2, 1, 1, 1, false);
    vh_c19_read_ws_1_b = readback(2, 1, 0, 2, true);
    vh_c19_create_ws_1 = create(2, 1, 0);
    vh_c19_single_ws_2 = singles(2, 2, 0, 1);
    vh_c19_read_ws_2_a = readback(2, 2, 0, 2, false);
    vh_c19_read_ws_2_b = readback(2, 2, 1, 0, true);
    vh_c19_create_ws_2 = create(2, 2, 1);
    vh_c19_single_ws_3 = singles(2, 3, 1, 2);
    vh_c19_read_ws_3_a = readback(2, 3, 1, 0, false);
    vh_c19_read_ws_3_b = readback(2, 3, 0, 1, true);
    vh_c19_create_ws_3 = create(2, 3, 2);
    vh_c19_single_ws_4 = singles(2, 4, 0, 0);
    vh_c19_read_ws_4_a = readback(2, 4, 0, 1, false);
    vh_c19_read_ws_4_b = readback(2, 4, 1, 2, true);
    vh_c19_create_ws_4 = create(2, 4, 0);
    vh_c19_single_ws_5 = singles(2, 5, 1, 1);
    vh_c19_read_ws_5_a = readback(2, 5, 1, 2, false);
    vh_c19_read_ws_5_b = readback(2, 5, 0, 0, true);
    vh_c19_create_ws_5 = create(2, 5, 1);
    vh_c19_single_ws_6 = singles(2, 6, 0, 2);
    vh_c19_read_ws_6_a = readback(2, 6, 0, 0, false);
    vh_c19_read_ws_6_b = readback(2, 6, 1, 1, true);
    vh_c19_create_ws_6 = create(2, 6, 2);
    vh_c19_single_ws_7 = singles(2, 7, 1, 0);
    vh_c19_read_ws_7_a = readback(2, 7, 1, 1, false);
    vh_c19_read_ws_7_b = readback(2, 7, 0, 2, true);
    vh_c19_create_ws_7 = create(2, 7, 0);
    vh_c19_rowsums_ws_1 = rowsums(2, 1);
    vh_c19_rowsums_ws_2 = rowsums(2, 2);
    vh_c19_rowsums_ws_3 = rowsums(2, 3);
    vh_c19_rowsums_ws_5 = rowsums(2, 5);
    vh_c19_rowsums_ws_8 = rowsums(2, 8);
    vh_c19_rowsums_ws_13 = rowsums(2, 13);
    vh_c19_rowsums_ws_21 = rowsums(2, 21);
    vh_c19_rowsums_ws_37 = rowsums(2, 37);
    vh_c19_rowsums_ws_60 = rowsums(2, 60);
}
