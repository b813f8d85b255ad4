//! The steps of a whole run over the file system in memory: the pair step, the
//! bytewise sort between the steps, reading back the files.
use super::common::*;
use crate::find::find_write::*;
use crate::sequences::symmetries::*;
use std::fs as vfs;

pub fn ty(k: usize) -> SequenceType {
    match k {
        0 => SequenceType::QuaternionType,
        1 => SequenceType::WilliamsonType,
        _ => SequenceType::Williamson,
    }
}
pub fn tyname(k: usize) -> &'static str {
    ["qts", "wts", "ws"][k]
}
pub fn pairing(k: usize) -> Option<RowsumPairing> {
    Some(match k {
        0 => RowsumPairing::WX,
        1 => RowsumPairing::WY,
        _ => RowsumPairing::WZ,
    })
}
/// the members of the two halves
pub const HALVES: [[usize; 4]; 3] = [[0, 1, 2, 3], [0, 2, 1, 3], [0, 3, 1, 2]];
pub fn mo(k: usize) -> MatchOption {
    if k == 0 {
        MatchOption::CORRELATION
    } else {
        MatchOption::PSD
    }
}
pub fn num_text(n: i64) -> String {
    let mut d: Vec<u8> = vec![];
    let mut m = n.abs();
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if n < 0 {
        d.push(b'-');
    }
    let mut s = String::new();
    while let Some(c) = d.pop() {
        s.push(c as char);
    }
    s
}
pub fn base(k: usize, n: usize) -> String {
    let mut s = String::from("results/pairs/");
    s.push_str(tyname(k));
    s.push_str("/find_");
    s.push_str(&num_text(n as i64));
    s
}
pub fn rs_dir(k: usize, n: usize, rs: (isize, isize, isize, isize)) -> String {
    let mut s = base(k, n);
    s.push_str("/rowsum");
    for x in [rs.0, rs.1, rs.2, rs.3] {
        s.push('_');
        s.push_str(&num_text(x as i64));
    }
    s
}
pub fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut cur = vec![];
    for &c in b {
        if c == b'\n' {
            r.push(cur);
            cur = vec![];
        } else {
            cur.push(c);
        }
    }
    check(cur.len() == 0, "a file does not end with a line feed");
    r
}
fn less(a: &Vec<u8>, b: &Vec<u8>) -> bool {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    for i in 0..n {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    a.len() < b.len()
}
/// LC_ALL=C sort
pub fn sorted(mut v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    // merge sort
    if v.len() < 2 {
        return v;
    }
    let b = sorted(v.split_off(v.len() / 2));
    let a = sorted(v);
    let mut r = vec![];
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && !less(&b[j], &a[i])) {
            r.push(a[i].clone());
            i += 1;
        } else {
            r.push(b[j].clone());
            j += 1;
        }
    }
    r
}
/// sortpairs.sh: every *.pair below the directory becomes *.pair.sorted
pub fn sort_step(dir: &str) {
    for name in vfs::names() {
        if name.starts_with(dir) && name.ends_with(".pair") {
            let mut out = vec![];
            for l in sorted(lines(vfs::get(&name).unwrap())) {
                for c in l {
                    out.push(c);
                }
                out.push(b'\n');
            }
            vfs::drop_file(&name);
            let mut s = name.clone();
            s.push_str(".sorted");
            vfs::put(&s, out);
        }
    }
}
pub fn is_pm(l: &Vec<u8>, n: usize) -> bool {
    l.len() == n && l.iter().all(|&c| c == b'+' || c == b'-')
}
pub fn seq_of(l: &Vec<u8>) -> Vec<i8> {
    let mut v = vec![];
    for &c in l.iter() {
        v.push(if c == b'+' { 1 } else { -1 });
    }
    v
}
pub fn sum(v: &[i8]) -> i64 {
    let mut s = 0;
    for &x in v {
        s += x as i64;
    }
    s
}
pub fn def_sym(x: &[i8]) -> bool {
    let n = x.len();
    let mut ok = true;
    for t in 1..n {
        ok &= x[t] == x[n - t];
    }
    ok
}
/// a rowsum directory of the real tree, in the order the join step lists them
pub fn dir_entries(k: usize, n: usize) -> Vec<vfs::DirEntry> {
    let mut r = vec![];
    for e in vfs::read_dir(&base(k, n)).unwrap() {
        let e = e.unwrap();
        if e.metadata().unwrap().is_dir() {
            r.push(e);
        }
    }
    r
}
pub fn set_reverse(x: bool) {
    vfs::vfs().reverse = x;
}
pub const SYM: &[u8; 16] = b"+-iIjJkKqQxXyYzZ";
pub const QUADS: [[i8; 4]; 16] = [
    [-1, -1, -1, -1], [1, 1, 1, 1], [1, -1, -1, 1], [-1, 1, 1, -1], [1, 1, -1, -1], [-1, -1, 1, 1], [1, -1, 1, -1], [-1, 1, -1, 1],
    [1, -1, -1, -1], [-1, 1, 1, 1], [1, 1, -1, 1], [-1, -1, 1, -1], [1, 1, 1, -1], [-1, -1, -1, 1], [1, -1, 1, 1], [-1, 1, -1, -1],
];
/// the quadruples listed in a result file
pub fn listed(f: &str, n: usize) -> Vec<Q> {
    check(has(f), "no result file");
    let mut r = vec![];
    for l in lines(vfs::get(f).unwrap()) {
        check(l.len() == n, "a line of the result file has another length");
        let mut q: Q = [vec![], vec![], vec![], vec![]];
        for c in l {
            let mut k = 16;
            for i in 0..16 {
                if SYM[i] == c {
                    k = i;
                }
            }
            check(k < 16, "a symbol in the result file which is none of the sixteen");
            for i in 0..4 {
                q[i].push(QUADS[k][i]);
            }
        }
        r.push(q);
    }
    r
}
pub fn has(f: &str) -> bool {
    vfs::get(f).is_some()
}
