//! The command line: a command does what the function it names does.
use super::common::*;
use super::pipe::*;
use crate::find::find_write::*;
use crate::sequences::matrix_equivalence::*;
use crate::sequences::rowsum::*;
use crate::sequences::symmetries::*;
use std::fs as vfs;

type Snap = Vec<(String, Vec<u8>)>;
fn snap() -> Snap {
    let mut r = vec![];
    for n in vfs::names() {
        r.push((n.clone(), vfs::get(&n).unwrap().to_vec()));
    }
    r
}
fn clear() {
    for n in vfs::names() {
        vfs::drop_file(&n);
    }
}
fn compare(a: &Snap, b: &Snap) {
    check(a.len() == b.len(), "the command leaves another number of files");
    for i in 0..a.len() {
        check(a[i].0 == b[i].0, "the command leaves another file");
        check(a[i].1 == b[i].1, "the command leaves a file with other contents");
    }
}
fn args(l: &[&str]) {
    let v = vfs::vfs();
    v.args.clear();
    v.args.push(String::from("rust"));
    for x in l {
        v.args.push(String::from(*x));
    }
}
const TYPES: [&str; 4] = ["qts", "wts", "ws", "xts"];
const PAIRINGS: [&str; 4] = ["WX", "WY", "WZ", "ZW"];
const MATCH: [&str; 3] = ["correlation", "psd", "none"];
fn pr(k: usize) -> Option<RowsumPairing> {
    if k == 3 {
        None
    } else {
        pairing(k)
    }
}
/// a number below k, as many branches as it takes to keep it known on each path
macro_rules! choose {
    ($k:expr) => {{
        let b = below($k as u64);
        let mut p: Vec<u8> = vec![];
        for j in 1..$k {
            if b >= j as u64 {
                p.push(0);
            }
        }
        p.len()
    }};
}
#[inline(never)]
fn last(ok: bool) {
    // all paths but one end here: there is nothing to merge
    reach();
    assume(ok);
}
#[inline(never)]
fn cli_rowsums(n: usize) {
    let k = choose!(4);
    for t in 0..3 {
        vfs::mkdirs(&base(t, n));
    }
    args(&["rowsums", TYPES[k], &num_text(n as i64)]);
    crate::main();
    let a = snap();
    check(k < 3, "an unknown type is accepted");
    clear();
    write_rowsums(n, ty(k));
    compare(&a, &snap());
    last(k == 0);
}
#[inline(never)]
fn cli_pairs(n: usize) {
    let (k, m, p) = (choose!(4), choose!(3), choose!(4));
    args(&["pairs", TYPES[k], &num_text(n as i64), MATCH[m], PAIRINGS[p]]);
    crate::main();
    let a = snap();
    check(k < 3 && m < 2, "an unknown type or option is accepted");
    clear();
    write_pairs(n, ty(k), mo(m), pr(p));
    compare(&a, &snap());
    last(k == 0 && m == 0 && p == 0);
}
/// four sums that differ, in any order of sign
macro_rules! sums {
    () => {{
        let (mut a, mut b, mut c, mut d) = (3isize, -1isize, 1isize, -3isize);
        if choose!(2) == 1 {
            (a, d) = (d, a);
        }
        if choose!(2) == 1 {
            (b, c) = (c, b);
        }
        if choose!(2) == 1 {
            (a, b, c, d) = (b, a, d, c);
        }
        (a, b, c, d)
    }};
}
fn text4(r: (isize, isize, isize, isize)) -> [String; 4] {
    [num_text(r.0 as i64), num_text(r.1 as i64), num_text(r.2 as i64), num_text(r.3 as i64)]
}
#[inline(never)]
fn cli_pairs_rowsum(k: usize, n: usize) {
    let (m, p) = (choose!(2), choose!(4));
    let r = sums!();
    let t = text4(r);
    args(&["pairs_rowsum", TYPES[k], &num_text(n as i64), &t[0], &t[1], &t[2], &t[3], MATCH[m], PAIRINGS[p]]);
    crate::main();
    let a = snap();
    clear();
    write_pairs_rowsum(&String::from(tyname(k)), r, n, mo(m), pr(p));
    compare(&a, &snap());
    check(a.len() == 6, "not four lists and two pair files");
    last(m == 0 && p == 0 && r.0 == 3 && r.1 == -1);
}
#[inline(never)]
fn cli_single(k: usize, n: usize) {
    let (m, p, w) = (choose!(2), choose!(3), choose!(2));
    let r = sums!();
    let t = text4(r);
    args(&["pair_single", TYPES[k], &num_text(n as i64), &t[0], &t[1], &t[2], &t[3], MATCH[m], PAIRINGS[p], ["1", "2"][w]]);
    create_rowsum_dirs(String::from(tyname(k)), n, r, pr(p));
    crate::main();
    let a = snap();
    clear();
    create_rowsum_dirs(String::from(tyname(k)), n, r, pr(p));
    write_pair_single_rowsum(String::from(tyname(k)), r, n, mo(m), pr(p), 1 + w as u8);
    compare(&a, &snap());
    last(m == 0 && p == 0 && w == 0 && r.0 == 3 && r.1 == -1);
}
#[inline(never)]
fn cli_create(k: usize, n: usize) {
    let p = choose!(3);
    let r = sums!();
    let t = text4(r);
    args(&["create", TYPES[k], &num_text(n as i64), &t[0], &t[1], &t[2], &t[3], PAIRINGS[p]]);
    crate::main();
    let a = snap();
    clear();
    create_rowsum_dirs(String::from(tyname(k)), n, r, pr(p));
    compare(&a, &snap());
    last(p == 0 && r.0 == 3 && r.1 == -1);
}
/// the commands which read the results of the steps before
#[inline(never)]
fn cli_later(n: usize, cmd: usize) {
    let k = choose!(3);
    write_pairs(n, ty(k), MatchOption::CORRELATION, pairing(0));
    sort_step(&base(k, n));
    if cmd > 0 {
        crate::find_write_quad_seq(n, ty(k));
    }
    let before = snap();
    let t = num_text(n as i64);
    match cmd {
        0 => args(&["join", TYPES[k], &t]),
        1 => args(&["convert", "hm", TYPES[k], &t]),
        2 => args(&["convert", "qhm", TYPES[k], &t]),
        _ => args(&["qhm-all", TYPES[k], &t]),
    }
    crate::main();
    let a = snap();
    clear();
    for (f, b) in before {
        vfs::put(&f, b);
    }
    match cmd {
        0 => crate::find_write_quad_seq(n, ty(k)),
        1 => {
            let mut f = base(k, n);
            f.push_str(if k == 1 { "/result-qts.seq" } else { "/result.seq" });
            hadamard_equivalence_from_file(f, ty(k));
        }
        2 => crate::convert_qs_to_matrices(ty(k), n),
        _ => crate::qhm_write_all(ty(k), n),
    }
    compare(&a, &snap());
    last(k == 0);
}
fn cli(which: usize, k: usize, n: usize) {
    paths("cli_");
    panic_ok();
    match which {
        0 => cli_rowsums(n),
        1 => cli_pairs(n),
        2 => cli_pairs_rowsum(k, n),
        3 => cli_single(k, n),
        4 => cli_create(k, n),
        _ => cli_later(n, which - 5),
    }
}
/// amicable: passes exactly if every listed sequence is of quaternion type and amicable
fn amicable(n: usize, c: usize, only_valid: bool) {
    let qs: Vec<Q> = (0..c).map(|_| sym_quad(n)).collect();
    let mut ok = true;
    let mut b = vec![];
    for q in qs.iter() {
        ok &= def_qts(q) & def_amicable(q);
        for i in 0..n {
            let mut x = b'?';
            for k in 0..16 {
                let e = &QUADS[k];
                if (q[0][i] == e[0]) & (q[1][i] == e[1]) & (q[2][i] == e[2]) & (q[3][i] == e[3]) {
                    x = SYM[k];
                }
            }
            b.push(x);
        }
        b.push(b'\n');
    }
    vfs::mkdirs(&base(0, n));
    let mut f = base(0, n);
    f.push_str("/result.seq");
    vfs::put(&f, b);
    if only_valid {
        assume(ok);
    } else {
        panic_ok();
    }
    args(&["amicable", &num_text(n as i64)]);
    crate::main();
    check(ok, "a sequence which is not amicable passes");
    reach();
}
/// a dephased matrix by its definition: entry (i, j) of the circulant matrix is
/// v[j-i]; rows are multiplied from the left, then columns from the right, so
/// that the first row and column become 1
#[inline(never)]
fn cli_qhm(n: usize, c: usize) {
    let mut all: Vec<String> = vec![];
    let mut b = vec![];
    for _ in 0..c {
        let mut s = String::new();
        for _ in 0..n {
            let k = choose!(16);
            s.push(SYM[k] as char);
        }
        for x in s.bytes() {
            b.push(x);
        }
        b.push(b'\n');
        all.push(s);
    }
    vfs::mkdirs(&base(0, n));
    let mut f = base(0, n);
    f.push_str("/result.seq");
    vfs::put(&f, b);
    args(&["convert", "qhm", "qts", &num_text(n as i64)]);
    crate::main();
    let mut f = base(0, n);
    f.push_str("/result.qhm");
    let mut want = String::new();
    for s in all.iter() {
        let m = crate::sequences::matrices::QHM::from_pqs(crate::sequences::sequence::QS::from_str(s)).dephased();
        want.push_str(&m.to_string());
        want.push('\n');
    }
    check(has(&f), "no matrices are written");
    check(vfs::get(&f).unwrap() == want.as_bytes(), "the matrices written are not those of the sequences, in their order");
    let mut first = true;
    for s in all.iter() {
        first &= s.bytes().all(|x| x == SYM[0]);
    }
    last(first);
}
fn qhm(n: usize, c: usize) {
    paths("cli_");
    cli_qhm(n, c);
}
harnesses! {
    vh_c24_rowsums_1 = cli(0, 0, 1);
    vh_c24_rowsums_3 = cli(0, 0, 3);
    vh_c24_rowsums_4 = cli(0, 0, 4);
    vh_c24_pairs_1 = cli(1, 0, 1);
    vh_c24_pairs_2 = cli(1, 0, 2);
    vh_c24_pairs_3 = cli(1, 0, 3);
    vh_c24_pairs_rowsum_0 = cli(2, 0, 3);
    vh_c24_pairs_rowsum_1 = cli(2, 1, 3);
    vh_c24_pairs_rowsum_2 = cli(2, 2, 3);
    vh_c24_single_0 = cli(3, 0, 3);
    vh_c24_single_1 = cli(3, 1, 3);
    vh_c24_single_2 = cli(3, 2, 3);
    vh_c24_create_0 = cli(4, 0, 3);
    vh_c24_create_1 = cli(4, 1, 3);
    vh_c24_create_2 = cli(4, 2, 3);
    vh_c24_join_1 = cli(5, 0, 1);
    vh_c24_join_3 = cli(5, 0, 3);
    vh_c24_hm_1 = cli(6, 0, 1);
    vh_c24_hm_3 = cli(6, 0, 3);
    vh_c24_qhm_1 = cli(7, 0, 1);
    vh_c24_qhm_3 = cli(7, 0, 3);
    vh_c24_all_1 = cli(8, 0, 1);
    vh_c24_all_3 = cli(8, 0, 3);
    vh_c24_amicable_1 = amicable(1, 2, true);
    vh_c24_amicable_2 = amicable(2, 1, true);
    vh_c24_amicable_3 = amicable(3, 1, true);
    vh_c24_amicable_4 = amicable(4, 1, true);
    vh_c24_refuse_2 = amicable(2, 1, false);
    vh_c24_refuse_2a = amicable(2, 2, false);
    vh_c24_refuse_3 = amicable(3, 1, false);
    vh_c24_refuse_4 = amicable(4, 1, false);
    vh_c24_order_1 = qhm(1, 2);
    vh_c24_order_2 = qhm(2, 1);
}
