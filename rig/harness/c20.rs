use super::common::*;
use super::pipe::*;
use crate::sequences::matrices::*;
use crate::sequences::matrix_equivalence::*;
use petgraph::visit::EdgeRef;
use std::fs as vfs;

fn any_hm(n: usize) -> HM {
    let mut m = HM::new(n);
    for i in 0..n {
        for j in 0..n {
            m.set_value(i, j, pm());
        }
    }
    m
}
fn equal(a: &HM, b: &HM) -> bool {
    let mut r = a.size() == b.size();
    for i in 0..a.size() {
        for j in 0..a.size() {
            r &= a.get(i, j) == b.get(i, j);
        }
    }
    r
}
/// vertices: rows, negated rows, columns, negated columns; a row is joined with
/// the columns where it has +1 and the negated columns where it has -1; the
/// rows and negated rows are marked by loops
fn graph(n: usize) {
    let m = any_hm(n);
    let g = graph_from_hm(&m);
    check(g.node_count() == 4 * n, "not one vertex per row, column and their negatives");
    check(g.edge_count() == 2 * n + 2 * n * n, "a wrong number of edges");
    let v = 4 * n;
    let mut adj = vec![vec![0u64; v]; v];
    for e in g.edge_references() {
        let (a, b) = (e.source().index(), e.target().index());
        for i in 0..v {
            for j in 0..v {
                adj[i][j] += ((a == i) & (b == j)) as u64;
            }
        }
    }
    for i in 0..v {
        for j in 0..=i {
            let have = if i == j { adj[i][i] } else { adj[i][j] + adj[j][i] };
            let want = if i == j {
                (i < 2 * n) as u64
            } else if i < 2 * n || j >= 2 * n {
                0
            } else {
                let (col, neg1) = ((i - 2 * n) % n, i >= 3 * n);
                let (row, neg2) = (j % n, j >= n);
                ((m.get(row, col) == 1) == (neg1 == neg2)) as u64
            };
            check(have == want, "an edge of the graph is wrong");
        }
    }
    reach();
}
/// with labels which are equal for equal graphs only, the reduction keeps each
/// different matrix once
fn reduce(n: usize, k: usize) {
    paths("reduced");
    let mut v = vec![];
    for _ in 0..k {
        v.push(any_hm(n));
    }
    reduced(k, v);
    reach();
}
#[inline(never)]
fn reduced(k: usize, mut v: Vec<HM>) {
    // the hash table needs to know the entries: one path for each
    let n = v[0].size();
    for m in v.iter_mut() {
        let mut plus = vec![];
        for i in 0..n {
            for j in 0..n {
                if m.get(i, j) == 1 {
                    plus.push((i, j));
                }
            }
        }
        for i in 0..n {
            for j in 0..n {
                m.set_value(i, j, -1);
            }
        }
        for (i, j) in plus {
            m.set_value(i, j, 1);
        }
    }
    let r = reduce_to_hadamard_equivalence(&v);
    for i in 0..k {
        let mut c = 0u64;
        for x in r.iter() {
            c += equal(x, &v[i]) as u64;
        }
        check(c == 1, "a matrix is lost or kept more than once");
    }
    check(r.len() <= k, "more matrices than there were");
}
fn text_of(q: &Q) -> Vec<u8> {
    let mut t = vec![];
    for i in 0..q[0].len() {
        let mut c = b'?';
        for k in 0..16 {
            let x = &QUADS[k];
            if (q[0][i] == x[0]) & (q[1][i] == x[1]) & (q[2][i] == x[2]) & (q[3][i] == x[3]) {
                c = SYM[k];
            }
        }
        t.push(c);
    }
    t
}
/// the matrices of a magma file
#[inline(never)]
fn parse(b: &[u8], n: usize) -> Vec<Vec<Vec<i8>>> {
    let mut r = vec![];
    for l in lines(b) {
        let head = b"M := Matrix([";
        let mut i = 0;
        while i < head.len() {
            check(l[i] == head[i], "a matrix does not begin as a magma matrix");
            i += 1;
        }
        let mut m = vec![];
        for row in 0..n {
            check(l[i] == b'[', "a row does not begin with a bracket");
            i += 1;
            let mut v = vec![];
            for col in 0..n {
                let mut x = 1i8;
                if l[i] == b'-' {
                    x = -1;
                    i += 1;
                }
                check(l[i] == b'1', "an entry which is neither 1 nor -1");
                i += 1;
                v.push(x);
                if col + 1 < n {
                    check(l[i] == b',', "entries are not separated by commas");
                    i += 1;
                }
            }
            check(l[i] == b']', "a row does not end with a bracket");
            i += 1;
            if row + 1 < n {
                check(l[i] == b',', "rows are not separated by commas");
                i += 1;
            }
            m.push(v);
        }
        check(l[i] == b']' && l[i + 1] == b')' && l[i + 2] == b';' && l.len() == i + 3, "a matrix does not end as a magma matrix");
        r.push(m);
    }
    r
}
#[inline(never)]
fn magma(n: usize, m: HM) {
    let mut s = m.to_string_magma();
    s.push('\n');
    let r = parse(s.as_bytes(), n);
    check(r.len() == 1, "not one line per matrix");
    for i in 0..n {
        for j in 0..n {
            check(r[0][i][j] == m.get(i, j), "an entry is not written as it is");
        }
    }
}
fn text(n: usize) {
    paths("magma");
    magma(n, any_hm(n));
    reach();
}
fn orthogonal(m: &Vec<Vec<i8>>) -> bool {
    let n = m.len();
    let mut ok = true;
    for a in 0..n {
        for b in 0..a {
            let mut s = 0i64;
            for k in 0..n {
                s += (m[a][k] * m[b][k]) as i64;
            }
            ok &= s == 0;
        }
    }
    ok
}
/// converting a result file: every listed sequence yields its matrix, once
#[inline(never)]
fn conv(k: usize, n: usize, qs: &Vec<Q>, valid_only: bool) {
    let mut b = vec![];
    let mut all = true;
    for q in qs.iter() {
        all &= def_valid(q, ty(k));
    }
    if valid_only {
        assume(all);
    }
    for q in qs.iter() {
        for c in text_of(q) {
            b.push(c);
        }
        b.push(b'\n');
    }
    vfs::mkdirs(&base(k, n));
    let mut f = base(k, n);
    f.push_str("/result.seq");
    vfs::put(&f, b);
    hadamard_equivalence_from_file(f, ty(k));
    check(all, "a sequence which is not valid is converted");
    let mut f = base(k, n);
    f.push_str("/result.mat");
    check(has(&f), "no matrices are written");
    let r = parse(vfs::get(&f).unwrap(), 4 * n);
    let mut used = vec![false; r.len()];
    for q in qs.iter() {
        let m = HM::from_williamson(&to_quadseq(q), SequenceType::QuaternionType);
        let mut c = 0u64;
        for (i, x) in r.iter().enumerate() {
            let mut e = true;
            for a in 0..4 * n {
                for b in 0..4 * n {
                    e &= x[a][b] == m.get(a, b);
                }
            }
            c += e as u64;
            used[i] |= e;
        }
        check(c == 1, "the matrix of a sequence is not listed, or more than once");
    }
    for (i, x) in r.iter().enumerate() {
        check(used[i], "a matrix is listed which comes from no sequence");
        check(orthogonal(x), "a listed matrix is not Hadamard");
    }
}
fn convert(k: usize, n: usize, c: usize, valid_only: bool) {
    paths("conv");
    if !valid_only {
        panic_ok();
    }
    let qs: Vec<Q> = (0..c).map(|_| sym_quad(n)).collect();
    conv(k, n, &qs, valid_only);
    reach();
}
harnesses! {
    vh_c20_graph_1 = graph(1);
    vh_c20_graph_2 = graph(2);
    vh_c20_graph_3 = graph(3);
    vh_c20_graph_4 = graph(4);
    vh_c20_reduce_1_3 = reduce(1, 3);
    vh_c20_reduce_2_2 = reduce(2, 2);
    vh_c20_text_1 = text(1);
    vh_c20_text_2 = text(2);
    vh_c20_text_3 = text(3); // tier=thorough cost=300 timeout=900
    vh_c20_convert_0_1_1 = convert(0, 1, 1, true);
    vh_c20_convert_1_1_1 = convert(1, 1, 1, true);
    vh_c20_convert_2_1_1 = convert(2, 1, 1, true);
    vh_c20_convert_0_1_2 = convert(0, 1, 2, true);
    vh_c20_convert_0_2_1 = convert(0, 2, 1, true);
    vh_c20_convert_1_2_1 = convert(1, 2, 1, true);
    vh_c20_convert_2_2_1 = convert(2, 2, 1, true);
    vh_c20_convert_0_3_1 = convert(0, 3, 1, true);
    vh_c20_convert_1_3_1 = convert(1, 3, 1, true);
    vh_c20_convert_2_3_1 = convert(2, 3, 1, true);
    vh_c20_convert_2_1_3 = convert(2, 1, 3, true); // tier=thorough cost=120
    vh_c20_graph_8 = graph(8);
    vh_c20_reject_0_2_1 = convert(0, 2, 1, false);
    vh_c20_reject_1_2_1 = convert(1, 2, 1, false);
    vh_c20_reject_2_2_1 = convert(2, 2, 1, false);
}
