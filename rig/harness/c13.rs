use super::common::*;
use super::pipe::*;
use crate::find::find_write::*;
use std::fs as vfs;

/// one line of a pair file: bytes of the key (without the delimiter), the two
/// indices and the whole text
struct Line {
    key: Vec<u8>,
    idx: (usize, usize),
    text: Vec<u8>,
}
/// a key of the given shape; 'd' any digit below 2^bits, other characters stand
/// for themselves
fn key(shape: &str, bits: u32) -> Vec<u8> {
    let mut v = vec![];
    for c in shape.bytes() {
        if c == b'd' {
            v.push(b'0' + num(bits) as u8);
        } else if c == b's' {
            // a sign or a digit
            v.push(if fresh() { b'-' } else { b'1' });
        } else {
            v.push(c);
        }
    }
    v
}
fn line(shape: &str, bits: u32, sizes: (usize, usize), off: usize) -> Line {
    let key = key(shape, bits);
    let i = if sizes.0 == 1 { 0 } else { below(sizes.0 as u64) as usize };
    let j = if sizes.1 == 1 { 0 } else { below(sizes.1 as u64) as usize };
    let mut text = key.clone();
    text.push(b'_');
    text.push(b':');
    text.push(b'_');
    // off is a multiple of ten
    let mut d = vec![];
    for c in num_text(off as i64).bytes() {
        if off > 0 {
            d.push(c);
        }
    }
    d.pop();
    text.extend_from_slice(&d);
    text.push(b'0' + i as u8);
    text.push(b'_');
    text.extend_from_slice(&d);
    text.push(b'0' + j as u8);
    Line { key, idx: (off + i, off + j), text }
}
/// bytewise order of whole lines, as LC_ALL=C sort leaves them
fn le(a: &[u8], b: &[u8]) -> bool {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut r = a.len() <= b.len();
    for k in 0..n {
        let i = n - 1 - k;
        r = (a[i] < b[i]) | ((a[i] == b[i]) & r);
    }
    r
}
fn eqb(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
fn file(name: &str, l: &Vec<Line>) {
    let mut d = vec![];
    for x in l {
        for &c in x.text.iter() {
            d.push(c);
        }
        d.push(b'\n');
    }
    vfs::put(name, d);
}
fn tag(i: usize) -> SequenceTag {
    match i {
        0 => SequenceTag::W,
        1 => SequenceTag::X,
        2 => SequenceTag::Y,
        _ => SequenceTag::Z,
    }
}
/// sequence number i of a list, i symbolic
fn pick(l: &Vec<Vec<i8>>, i: usize) -> Vec<i8> {
    let mut r = l[0].clone();
    for k in 1..l.len() {
        for t in 0..r.len() {
            r[t] = if i == k { l[k][t] } else { r[t] };
        }
    }
    r
}
type Lists = (Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>);
/// path by path: the join and the comparison of its result, as multisets
#[inline(never)]
fn run_join(f: &(String, String), k: usize, n: usize, o: &(SequenceTag, SequenceTag, SequenceTag, SequenceTag), s: &Lists, want: &Vec<(bool, Q)>) {
    let res = join_pairs_files(f, ty(k), o, s);
    let got: Vec<Q> = res.iter().map(|x| of_quadseq(x)).collect();
    for g in got.iter() {
        check(g[0].len() == n && g[1].len() == n && g[2].len() == n && g[3].len() == n, "a result of the wrong length");
    }
    let cnt = |q: &Q| {
        let (mut x, mut y) = (0u64, 0u64);
        for g in got.iter() {
            x += same(g, q) as u64;
        }
        for (c, w) in want.iter() {
            y += (*c & same(w, q)) as u64;
        }
        (x, y)
    };
    for (c, w) in want.iter() {
        let (x, y) = cnt(w);
        check(!*c | (x == y), "the join loses or repeats a match");
    }
    for g in got.iter() {
        let (x, y) = cnt(g);
        check(x == y, "the join returns a quadruple which is no valid match");
    }
}
/// k type, n length, shapes of the keys of the lines of both files, sizes of the
/// four lists (in the order of the tags), the order of the tags
fn join(k: usize, n: usize, a: &[&str], b: &[&str], bits: u32, sizes: [usize; 4], ord: [usize; 4]) {
    join_at(k, n, a, b, bits, sizes, ord, 0);
}
/// the same with off further sequences in front of the lists, so that the
/// indices have more digits
fn join_at(k: usize, n: usize, a: &[&str], b: &[&str], bits: u32, sizes: [usize; 4], ord: [usize; 4], off: usize) {
    no_feasibility();
    paths("join_pairs_files");
    paths("run_join");
    let mut lists = vec![];
    for i in 0..4 {
        let mut l = vec![];
        for x in 0..off {
            l.push((0..n).map(|t| if (x + i + t) % 3 == 0 { -1i8 } else { 1 }).collect());
        }
        for _ in 0..sizes[i] {
            l.push(pm_vec(n));
        }
        lists.push(l);
    }
    let s = |x: usize| sizes[ord[x]];
    let l12: Vec<Line> = a.iter().map(|x| line(x, bits, (s(0), s(1)), off)).collect();
    let l34: Vec<Line> = b.iter().map(|x| line(x, bits, (s(2), s(3)), off)).collect();
    for l in [&l12, &l34] {
        for i in 1..l.len() {
            assume(le(&l[i - 1].text, &l[i].text));
        }
    }
    file("dir/pair_12.pair.sorted", &l12);
    file("dir/pair_34.pair.sorted", &l34);
    let d = lists.pop().unwrap();
    let c = lists.pop().unwrap();
    let bb = lists.pop().unwrap();
    let aa = lists.pop().unwrap();
    let seqs = (aa, bb, c, d);
    let order = (tag(ord[0]), tag(ord[1]), tag(ord[2]), tag(ord[3]));
    let names = (String::from("dir/pair_12.pair.sorted"), String::from("dir/pair_34.pair.sorted"));
    // what is expected
    let mut want: Vec<(bool, Q)> = vec![];
    for x in l12.iter() {
        for y in l34.iter() {
            let e = eqb(&x.key, &y.key);
            if known(e) == 0 && x.key.len() != y.key.len() {
                continue;
            }
            let ix = [x.idx.0, x.idx.1, y.idx.0, y.idx.1];
            let mut q: Q = [vec![], vec![], vec![], vec![]];
            for p in 0..4 {
                let l = [&seqs.0, &seqs.1, &seqs.2, &seqs.3][ord[p]];
                q[ord[p]] = pick(l, ix[p]);
            }
            let ok = e & def_valid(&q, ty(k));
            want.push((ok, q));
        }
    }
    run_join(&names, k, n, &order, &seqs, &want);
    reach();
}
harnesses! {
    vh_c13_empty_a = join(0, 1, &[], &["d"], 1, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_empty_b = join(0, 1, &["d", "d"], &[], 1, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_empty_ab = join(0, 1, &[], &[], 1, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_one = join(0, 1, &["d"], &["d"], 3, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_one_n2 = join(0, 2, &["d"], &["d"], 2, [2, 2, 2, 2], [0, 3, 1, 2]);
    vh_c13_one_n2_rev = join(0, 2, &["s"], &["s"], 2, [2, 2, 2, 2], [1, 2, 0, 3]);
    vh_c13_one_n3_wt = join(1, 3, &["d"], &["d"], 1, [1, 1, 1, 1], [0, 1, 2, 3]);
    vh_c13_one_n3_ws = join(2, 3, &["d"], &["d"], 1, [2, 1, 2, 1], [2, 3, 0, 1]);
    vh_c13_one_n3_qt = join(0, 3, &["d"], &["d"], 1, [1, 2, 1, 1], [1, 3, 0, 2]);
    vh_c13_one_n4_qt = join(0, 4, &["d"], &["d"], 1, [1, 1, 1, 1], [1, 0, 3, 2]);
    vh_c13_one_n4_wt = join(1, 4, &["d"], &["d"], 1, [1, 1, 1, 1], [3, 1, 2, 0]);
    vh_c13_one_n4_ws = join(2, 4, &["d"], &["d"], 1, [1, 1, 1, 1], [0, 2, 1, 3]);
    vh_c13_nokey = join(0, 1, &[""], &[""], 1, [2, 2, 2, 2], [0, 3, 1, 2]);
    vh_c13_nokey_2 = join(0, 2, &["", ""], &["", ""], 1, [1, 2, 2, 1], [0, 3, 1, 2]);
    vh_c13_two = join(0, 1, &["d", "d"], &["d", "d"], 2, [2, 1, 1, 2], [0, 3, 1, 2]);
    vh_c13_two_sign = join(0, 1, &["s", "sd"], &["s", "sd"], 1, [1, 2, 1, 2], [2, 3, 0, 1]);
    vh_c13_two_long = join(0, 1, &["d_d_-d", "d_d_d"], &["d_d_-d", "d_d_d"], 1, [1, 1, 1, 1], [0, 1, 2, 3]);
    vh_c13_two_prefix = join(0, 1, &["d", "d_d"], &["d", "d_d"], 2, [2, 1, 1, 2], [0, 3, 1, 2]);
    vh_c13_two_prefix_n2 = join(0, 2, &["d", "d_-d"], &["d", "d_-d"], 1, [1, 2, 1, 2], [0, 2, 1, 3]);
    vh_c13_two_digits = join(0, 1, &["d", "dd"], &["d", "dd"], 2, [1, 2, 1, 2], [0, 3, 1, 2]);
    vh_c13_three = join(0, 1, &["d", "d", "d"], &["d", "d", "d"], 1, [2, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_three_two = join(0, 1, &["d", "d", "d"], &["d", "d"], 2, [1, 2, 1, 2], [1, 3, 0, 2]);
    vh_c13_two_three = join(0, 1, &["s", "s"], &["s", "s", "s"], 1, [2, 1, 2, 1], [0, 3, 1, 2]);
    vh_c13_two_n2 = join(0, 2, &["d", "d"], &["d", "d"], 1, [2, 1, 2, 1], [0, 3, 1, 2]);
    vh_c13_two_n2_wt = join(1, 2, &["d", "d"], &["d", "d"], 1, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_two_n2_ws = join(2, 2, &["d", "d"], &["d", "d"], 1, [1, 1, 1, 1], [0, 1, 2, 3]);
    vh_c13_two_n3 = join(1, 3, &["d", "d"], &["d", "d"], 1, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_two_n3_ws = join(2, 3, &["d", "d"], &["d", "d"], 1, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_mixed = join(0, 1, &["s_d", "s_dd", "d"], &["s_d", "d"], 1, [1, 1, 1, 2], [0, 3, 1, 2]);
    vh_c13_mixed3 = join(0, 1, &["s_d", "d_dd", "d"], &["s_d", "d", "d_dd"], 1, [1, 1, 1, 1], [2, 3, 0, 1]);
    vh_c13_four_one = join(0, 1, &["d", "d", "d", "d"], &["d"], 2, [2, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_one_four = join(0, 1, &["d"], &["d", "d", "d", "d"], 2, [2, 1, 1, 2], [0, 3, 1, 2]);
    vh_c13_four_two = join(0, 1, &["d", "d", "d", "d"], &["d", "d"], 2, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_four_four = join(0, 1, &["d", "d", "d", "d"], &["d", "d", "d", "d"], 1, [1, 1, 1, 1], [0, 3, 1, 2]);
    vh_c13_index_10 = join_at(0, 1, &["d"], &["d"], 1, [2, 2, 2, 2], [0, 3, 1, 2], 10);
    vh_c13_index_120 = join_at(0, 2, &["s"], &["s"], 1, [2, 1, 2, 1], [2, 3, 0, 1], 120);
    vh_c13_index_10_two = join_at(0, 1, &["d", "d"], &["d", "d"], 1, [2, 1, 1, 2], [0, 3, 1, 2], 10);
}
