use super::common::*;
use crate::find::find_write::string_to_sequence;
use crate::sequences::rowsum::sequence_to_string;
use crate::sequences::sequence::{quaternion_to_string, Q24, Q24_STRING, QS};
use crate::sequences::williamson::quaternion_to_quad;

/// quadruple -> quaternions -> quadruple
fn roundtrip(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let s = to_quadseq(&q);
    let qs = s.to_qs();
    check(qs.size() == n && qs.values().len() == n, "to_qs changes the length");
    check(same(&of_quadseq(&QuadSeq::from_pqs(&qs)), &q), "quadruple -> quaternions -> quadruple is not the identity");
    for i in 0..n {
        check(s.values(i) == (q[0][i], q[1][i], q[2][i], q[3][i]), "values does not give the entries at an index");
    }
    reach();
}
/// the same through the one-character-per-entry text
fn text(n: usize) {
    no_feasibility();
    let q = sym_quad(n);
    let qs = to_quadseq(&q).to_qs();
    let t = qs.to_string_raw();
    check(t.len() == n, "a written sequence does not have one character per entry");
    let back = QS::from_str(&t);
    check(back.size() == n && back.values().len() == n, "reading changes the length");
    check(same(&of_quadseq(&QuadSeq::from_pqs(&back)), &q), "writing and reading a sequence is not the identity");
    let u = qs.to_string();
    check(u.len() == n + 2, "the bracketed text has the wrong length");
    reach();
}
/// every symbol stands for its quaternion, and back
fn symbols() {
    no_feasibility();
    let k = below(24) as usize;
    let mut c = ' ';
    let mut w = (0i8, 0i8, 0i8, 0i8);
    for (i, x) in SYM24.chars().enumerate() {
        if i == k {
            c = x;
            w = unit(x);
        }
    }
    let s = c.to_string();
    let qs = QS::from_str(&s);
    let v = qs.values()[0];
    check(qs.size() == 1, "one symbol is not one entry");
    check(v.s * 2.0 == w.0 as f32 && v.v.x * 2.0 == w.1 as f32 && v.v.y * 2.0 == w.2 as f32 && v.v.z * 2.0 == w.3 as f32, "a symbol does not denote its quaternion");
    check(quaternion_to_string(&v) == s, "a quaternion is not written as the symbol it was read from");
    reach();
}
fn tables() {
    for i in 0..24 {
        check(quaternion_to_string(&Q24[i]) == Q24_STRING[i], "the symbol table does not follow the quaternion table");
    }
    for i in 0..16 {
        let (a, b, c, d) = quaternion_to_quad(&Q24[i]);
        let mut s = QuadSeq::new(1);
        s.set_all_values((&vec![a], &vec![b], &vec![c], &vec![d]));
        check(s.to_qs().values()[0] == Q24[i], "quaternion -> quadruple -> quaternion is not the identity");
    }
    reach();
}
/// single sequences and their +/- text
fn plain(n: usize) {
    no_feasibility();
    let v = pm_vec(n);
    let t = sequence_to_string(&v);
    check(t.len() == n, "the +/- text has the wrong length");
    for (i, c) in t.chars().enumerate() {
        check((c == '+') == (v[i] == 1) && (c == '-') == (v[i] == -1), "the +/- text does not show the signs");
    }
    let b = string_to_sequence(&t);
    check(b.len() == n, "reading +/- text changes the length");
    for i in 0..n {
        check(b[i] == v[i], "writing and reading +/- text is not the identity");
    }
    reach();
}
harnesses! {
    vh_c01_quat_1 = roundtrip(1);
    vh_c01_quat_2 = roundtrip(2);
    vh_c01_quat_7 = roundtrip(7);
    vh_c01_quat_16 = roundtrip(16);
    vh_c01_quat_33 = roundtrip(33); // tier=thorough
    vh_c01_text_1 = text(1);
    vh_c01_text_2 = text(2);
    vh_c01_text_3 = text(3);
    vh_c01_text_8 = text(8);
    vh_c01_text_16 = text(16); // tier=thorough
    vh_c01_symbols = symbols();
    vh_c01_tables = tables();
    vh_c01_plain_0 = plain(0);
    vh_c01_plain_1 = plain(1);
    vh_c01_plain_9 = plain(9);
    vh_c01_plain_24 = plain(24);
}
