use super::common::*;
use crate::sequences::equivalence::*;

const QTS: SequenceType = SequenceType::QuaternionType;
const WTS: SequenceType = SequenceType::WilliamsonType;
const WS: SequenceType = SequenceType::Williamson;

/// every image of a quadruple under every operation of its type is valid
/// whenever the quadruple is
fn preserved(n: usize, t: SequenceType) {
    no_feasibility();
    set_mode(1);
    let q = sym_quad(n);
    let v = def_valid(&q, t);
    let s = to_quadseq(&q);
    for op in t.equivalences() {
        for (live, img) in entries(&op(&s, t, true)) {
            check(!live | !v | def_valid(&of_quadseq(&img), t), "an equivalence operation maps a valid quadruple to an invalid one");
        }
    }
    reach();
}
/// the operation lists are not empty (nothing above would be said otherwise)
fn lists() {
    check(QTS.equivalences().len() > 0 && WTS.equivalences().len() > 0 && WS.equivalences().len() > 0, "a type has no equivalence operations");
    reach();
}
harnesses! {
    vh_c04_lists = lists();
    vh_c04_qts_1 = preserved(1, QTS);
    vh_c04_wts_1 = preserved(1, WTS);
    vh_c04_ws_1 = preserved(1, WS);
    vh_c04_qts_2 = preserved(2, QTS);
    vh_c04_wts_2 = preserved(2, WTS);
    vh_c04_ws_2 = preserved(2, WS);
    vh_c04_qts_3 = preserved(3, QTS);
    vh_c04_wts_3 = preserved(3, WTS);
    vh_c04_ws_3 = preserved(3, WS);
    vh_c04_qts_4 = preserved(4, QTS);
    vh_c04_wts_4 = preserved(4, WTS);
    vh_c04_ws_4 = preserved(4, WS);
    vh_c04_qts_5 = preserved(5, QTS);
    vh_c04_wts_5 = preserved(5, WTS);
    vh_c04_ws_5 = preserved(5, WS);
    vh_c04_qts_6 = preserved(6, QTS);
    vh_c04_wts_6 = preserved(6, WTS);
    vh_c04_ws_6 = preserved(6, WS);
    vh_c04_qts_7 = preserved(7, QTS);
    vh_c04_wts_7 = preserved(7, WTS);
    vh_c04_ws_7 = preserved(7, WS);
    vh_c04_qts_8 = preserved(8, QTS);
    vh_c04_wts_8 = preserved(8, WTS);
    vh_c04_ws_8 = preserved(8, WS);
    vh_c04_qts_9 = preserved(9, QTS);
    vh_c04_wts_9 = preserved(9, WTS);
    vh_c04_ws_9 = preserved(9, WS);
    vh_c04_qts_10 = preserved(10, QTS);
    vh_c04_wts_10 = preserved(10, WTS);
    vh_c04_ws_10 = preserved(10, WS);
    vh_c04_qts_11 = preserved(11, QTS);
    vh_c04_wts_11 = preserved(11, WTS);
    vh_c04_ws_11 = preserved(11, WS);
    vh_c04_qts_12 = preserved(12, QTS);
    vh_c04_wts_12 = preserved(12, WTS);
    vh_c04_ws_12 = preserved(12, WS);
    vh_c04_qts_13 = preserved(13, QTS);
    vh_c04_wts_13 = preserved(13, WTS);
    vh_c04_ws_13 = preserved(13, WS);
    vh_c04_qts_14 = preserved(14, QTS);
    vh_c04_wts_14 = preserved(14, WTS);
    vh_c04_ws_14 = preserved(14, WS);
    vh_c04_qts_15 = preserved(15, QTS);
    vh_c04_wts_15 = preserved(15, WTS);
    vh_c04_ws_15 = preserved(15, WS);
    vh_c04_qts_16 = preserved(16, QTS);
    vh_c04_wts_16 = preserved(16, WTS);
    vh_c04_ws_16 = preserved(16, WS);
    vh_c04_qts_18 = preserved(18, QTS); // cost=3
    vh_c04_wts_18 = preserved(18, WTS);
    vh_c04_ws_18 = preserved(18, WS);
    vh_c04_qts_20 = preserved(20, QTS); // cost=4
    vh_c04_wts_20 = preserved(20, WTS); // cost=3
    vh_c04_ws_20 = preserved(20, WS);
    vh_c04_qts_21 = preserved(21, QTS); // cost=4
    vh_c04_wts_21 = preserved(21, WTS); // cost=4
    vh_c04_ws_21 = preserved(21, WS);
    vh_c04_qts_22 = preserved(22, QTS); // cost=5
    vh_c04_wts_22 = preserved(22, WTS); // cost=4
    vh_c04_ws_22 = preserved(22, WS);
    vh_c04_qts_24 = preserved(24, QTS); // cost=4
    vh_c04_wts_24 = preserved(24, WTS); // cost=5
    vh_c04_ws_24 = preserved(24, WS);
    vh_c04_qts_25 = preserved(25, QTS); // cost=7
    vh_c04_wts_25 = preserved(25, WTS); // cost=7
    vh_c04_ws_25 = preserved(25, WS); // cost=3
    vh_c04_qts_28 = preserved(28, QTS); // cost=8
    vh_c04_wts_28 = preserved(28, WTS); // cost=6
    vh_c04_ws_28 = preserved(28, WS); // cost=4
    vh_c04_qts_30 = preserved(30, QTS); // cost=9
    vh_c04_wts_30 = preserved(30, WTS); // cost=9
    vh_c04_ws_30 = preserved(30, WS); // cost=2
    vh_c04_qts_32 = preserved(32, QTS); // cost=10
    vh_c04_wts_32 = preserved(32, WTS); // cost=10
    vh_c04_ws_32 = preserved(32, WS); // cost=3
    vh_c04_qts_36 = preserved(36, QTS); // cost=12
    vh_c04_wts_36 = preserved(36, WTS); // cost=12
    vh_c04_ws_36 = preserved(36, WS); // cost=6
}
