use super::common::*;
use crate::sequences::equivalence::*;

type Op = fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>;
const QTS: SequenceType = SequenceType::QuaternionType;
const WTS: SequenceType = SequenceType::WilliamsonType;
const WS: SequenceType = SequenceType::Williamson;
const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];

pub fn shift(v: &[i8], k: usize) -> Vec<i8> {
    let n = v.len();
    (0..n).map(|i| v[(i + k) % n]).collect()
}
pub fn neg(v: &[i8]) -> Vec<i8> {
    v.iter().map(|x| -*x).collect()
}
pub fn alt(v: &[i8]) -> Vec<i8> {
    v.iter().enumerate().map(|(i, x)| if i % 2 == 1 { -*x } else { *x }).collect()
}
pub fn decimate(v: &[i8], k: usize) -> Vec<i8> {
    let n = v.len();
    (0..n).map(|i| v[(i * k) % n]).collect()
}
pub fn each(q: &Q, f: impl Fn(&[i8]) -> Vec<i8>) -> Q {
    [f(&q[0]), f(&q[1]), f(&q[2]), f(&q[3])]
}
pub fn on(q: &Q, which: &[usize], f: impl Fn(&[i8]) -> Vec<i8>) -> Q {
    let mut r = q.clone();
    for k in which {
        r[*k] = f(&q[*k]);
    }
    r
}
pub fn sw(q: &Q, i: usize, j: usize) -> Q {
    let mut r = q.clone();
    r[i] = q[j].clone();
    r[j] = q[i].clone();
    r
}
fn gcd(a: usize, b: usize) -> usize {
    let (mut a, mut b) = (a, b);
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
/// the result of `op` is exactly the listed set
fn exactly(op: Op, q: &Q, want: &[Q], miss: &'static str, extra: &'static str) {
    let s = to_quadseq(q);
    let mut w: HashSet<QuadSeq> = HashSet::new();
    for x in want.iter() {
        w.insert(to_quadseq(x));
    }
    let cases: &[(SequenceType, bool)] = if q[0].len() <= 8 { &[(QTS, true), (QTS, false), (WTS, true), (WTS, false), (WS, true), (WS, false)] } else { &[(QTS, true), (WS, false)] };
    for (t, flag) in cases.iter() {
        let res = op(&s, *t, *flag);
        for x in want.iter() {
            check(member(&res, &to_quadseq(x)), miss);
        }
        for (l, x) in entries(&res) {
            check(!l | member(&w, &x), extra);
        }
    }
}
fn uniform_shift(n: usize) {
    set_mode(1);
    let q = sym_quad(n);
    let want: Vec<Q> = (0..n).map(|k| each(&q, |v| shift(v, k))).collect();
    exactly(equivalent_uniform_shift, &q, &want, "uniform shift: a cyclic shift is missing", "uniform shift: not a cyclic shift");
    reach();
}
fn half(n: usize) {
    set_mode(1);
    let q = sym_quad(n);
    let h = |v: &[i8]| shift(v, n / 2);
    let mut single = vec![q.clone()];
    let mut dual = vec![q.clone()];
    if n % 2 == 0 {
        for i in 0..4 {
            single.push(on(&q, &[i], h));
        }
        for (i, j) in PAIRS {
            dual.push(on(&q, &[i, j], h));
        }
        dual.push(each(&q, h));
    }
    exactly(equivalent_single_half_shift, &q, &single, "single half shift: an image is missing", "single half shift: not a half shift of one sequence");
    exactly(equivalent_uniform_half_shift, &q, &single, "uniform half shift: an image is missing", "uniform half shift: not a half shift of one sequence");
    exactly(equivalent_dual_half_shift, &q, &dual, "dual half shift: an image is missing", "dual half shift: not a half shift of an even number of sequences");
    reach();
}
fn signs(n: usize) {
    set_mode(1);
    let q = sym_quad(n);
    let mut one = vec![q.clone()];
    let mut two = vec![q.clone()];
    for i in 0..4 {
        one.push(on(&q, &[i], neg));
    }
    for (i, j) in PAIRS {
        two.push(on(&q, &[i, j], neg));
    }
    exactly(equivalent_negate, &q, &one, "negate: an image is missing", "negate: not a negation of one sequence");
    exactly(equivalent_double_negate, &q, &two, "double negate: an image is missing", "double negate: not a negation of two sequences");
    let a = vec![q.clone(), each(&q, alt)];
    exactly(equivalent_alternated_negation, &q, &a, "alternated negation: image missing", "alternated negation: unexpected image");
    let e = if n % 2 == 0 { a } else { vec![q.clone()] };
    exactly(equivalent_even_alternated_negation, &q, &e, "even alternated negation: image missing", "even alternated negation: unexpected image");
    reach();
}
fn orders(n: usize) {
    set_mode(1);
    let q = sym_quad(n);
    let mut one = vec![q.clone()];
    let mut two = vec![q.clone()];
    let mut ns = vec![q.clone()];
    for (i, j) in PAIRS {
        one.push(sw(&q, i, j));
        for (k, l) in PAIRS {
            two.push(sw(&sw(&q, i, j), k, l));
        }
        for k in 0..4 {
            ns.push(sw(&on(&q, &[k], neg), i, j));
        }
    }
    exactly(equivalent_reorder, &q, &one, "reorder: a swap is missing", "reorder: not a swap of two sequences");
    exactly(equivalent_double_reorder, &q, &two, "double reorder: an image is missing", "double reorder: not a product of two swaps");
    exactly(equivalent_negate_swap, &q, &ns, "negate and swap: an image is missing", "negate and swap: unexpected image");
    let d = vec![q.clone(), sw(&sw(&q, 0, 1), 2, 3), sw(&sw(&q, 0, 2), 1, 3), sw(&sw(&q, 0, 3), 1, 2)];
    exactly(equivalent_disjoint_swaps, &q, &d, "disjoint swaps: an image is missing", "disjoint swaps: unexpected image");
    let r = vec![q.clone(), each(&q, |v| v.iter().rev().cloned().collect())];
    exactly(equivalent_reverse, &q, &r, "reverse: image missing", "reverse: unexpected image");
    reach();
}
fn automorphism(n: usize) {
    set_mode(1);
    let q = sym_quad(n);
    let want: Vec<Q> = (1..=n).filter(|k| gcd(*k, n) == 1).map(|k| each(&q, |v| decimate(v, k))).collect();
    exactly(equivalent_automorphism, &q, &want, "automorphism: a decimation is missing", "automorphism: not a decimation by a unit");
    reach();
}
/// all images of the labels 1..4n under the generators, as signed labels
fn closure(n: usize, gens: &[&dyn Fn(&Q) -> Q]) -> Vec<Q> {
    let mut l: Q = [vec![], vec![], vec![], vec![]];
    for k in 0..4 {
        for i in 0..n {
            l[k].push((k * n + i + 1) as i8);
        }
    }
    let mut seen: HashSet<Q> = HashSet::new();
    let mut todo = vec![l];
    seen.insert(todo[0].clone());
    let mut i = 0;
    while i < todo.len() {
        for g in gens.iter() {
            let x = g(&todo[i]);
            if seen.insert(x.clone()) {
                todo.push(x);
            }
        }
        i += 1;
    }
    todo
}
fn image(q: &Q, l: &Q) -> Q {
    let n = q[0].len();
    let mut r: Q = [vec![], vec![], vec![], vec![]];
    for k in 0..4 {
        for e in l[k].iter() {
            let m = e.abs() as usize - 1;
            r[k].push(if *e < 0 { -q[m / n][m % n] } else { q[m / n][m % n] });
        }
    }
    r
}
/// the class computed through precomputed symmetries is the orbit under the
/// group generated by the operations
fn class(n: usize, t: SequenceType, ops: Vec<Op>, gens: &[&dyn Fn(&Q) -> Q]) {
    set_mode(1);
    let q = sym_quad(n);
    let g = closure(n, gens);
    let sym = generate_symmetry_group(n, t, &ops);
    check(sym.len() == g.len(), "the symmetry group has the wrong size");
    for x in g.iter() {
        check(sym.contains(&to_quadseq(x)), "the symmetry group misses a symmetry");
    }
    let mut want: HashSet<QuadSeq> = HashSet::new();
    for x in g.iter() {
        want.insert(to_quadseq(&image(&q, x)));
    }
    let s = to_quadseq(&q);
    let fast = generate_equivalence_class_fast(&s, &sym);
    for (l, x) in entries(&fast) {
        check(!l | member(&want, &x), "the fast class lists a quadruple outside the orbit");
    }
    for (_, x) in entries(&want) {
        check(member(&fast, &x), "the fast class misses a quadruple of the orbit");
    }
    reach();
}
/// the class computed by closing under the operations is the orbit
fn slow(n: usize, t: SequenceType, ops: Vec<Op>, gens: &[&dyn Fn(&Q) -> Q]) {
    set_mode(1);
    let q = sym_quad(n);
    let mut want: HashSet<QuadSeq> = HashSet::new();
    for x in closure(n, gens).iter() {
        want.insert(to_quadseq(&image(&q, x)));
    }
    let r = generate_equivalence_class(&to_quadseq(&q), t, &ops, true);
    for (l, x) in entries(&r) {
        check(!l | member(&want, &x), "the closed class lists a quadruple outside the orbit");
    }
    for (_, x) in entries(&want) {
        check(member(&r, &x), "the closed class misses a quadruple of the orbit");
    }
    reach();
}
fn unit(n: usize) -> Vec<usize> {
    (1..=n).filter(|k| gcd(*k, n) == 1).collect()
}
fn deci(k: usize) -> impl Fn(&Q) -> Q {
    move |q: &Q| each(q, |v| decimate(v, k))
}
fn g_shift(q: &Q) -> Q {
    each(q, |v| shift(v, 1))
}
fn g_alt(q: &Q) -> Q {
    if q[0].len() % 2 == 0 { each(q, alt) } else { q.clone() }
}
fn half_on(q: &Q, w: &[usize]) -> Q {
    let n = q[0].len();
    if n % 2 == 0 { on(q, w, |v| shift(v, n / 2)) } else { q.clone() }
}
fn g_h0(q: &Q) -> Q { half_on(q, &[0]) }
fn g_h1(q: &Q) -> Q { half_on(q, &[1]) }
fn g_h2(q: &Q) -> Q { half_on(q, &[2]) }
fn g_h3(q: &Q) -> Q { half_on(q, &[3]) }
fn g_d01(q: &Q) -> Q { half_on(q, &[0, 1]) }
fn g_d02(q: &Q) -> Q { half_on(q, &[0, 2]) }
fn g_d03(q: &Q) -> Q { half_on(q, &[0, 3]) }
fn g_n0(q: &Q) -> Q { on(q, &[0], neg) }
fn g_s01(q: &Q) -> Q { sw(q, 0, 1) }
fn g_s02(q: &Q) -> Q { sw(q, 0, 2) }
fn g_s03(q: &Q) -> Q { sw(q, 0, 3) }
fn g_ns(q: &Q) -> Q { sw(&on(q, &[0], neg), 0, 1) }
fn g_ns2(q: &Q) -> Q { sw(&on(q, &[0], neg), 0, 2) }
fn g_ns3(q: &Q) -> Q { sw(&on(q, &[0], neg), 0, 3) }
type G<'a> = Vec<&'a dyn Fn(&Q) -> Q>;
/// which: the operations used to precompute symmetries when reducing
fn with(n: usize, which: &str, f: fn(usize, SequenceType, Vec<Op>, &[&dyn Fn(&Q) -> Q])) {
    let us: Vec<_> = unit(n).into_iter().map(deci).collect();
    let mut g: G = us.iter().map(|x| x as &dyn Fn(&Q) -> Q).collect();
    let half1: G = vec![&g_h0, &g_h1, &g_h2, &g_h3];
    let half2: G = vec![&g_d01, &g_d02, &g_d03];
    match which {
        "auto" => f(n, QTS, vec![equivalent_automorphism], &g),
        "shift" => f(n, QTS, vec![equivalent_uniform_shift], &[&g_shift]),
        "qts" => {
            g.push(&g_shift);
            g.push(&g_alt);
            g.extend(half2);
            f(n, QTS, vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift], &g)
        }
        "wts" => {
            g.push(&g_shift);
            g.push(&g_alt);
            g.extend(half1);
            f(n, WTS, vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift], &g)
        }
        "ws" => {
            g.push(&g_alt);
            g.extend(half1);
            f(n, WS, vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_single_half_shift], &g)
        }
        "ns" => f(n, QTS, vec![equivalent_negate_swap], &[&g_ns, &g_ns2, &g_ns3]),
        "sign" => f(n, WTS, vec![equivalent_negate, equivalent_reorder], &[&g_n0, &g_s01, &g_s02, &g_s03]),
        "even" => f(n, QTS, vec![equivalent_double_negate, equivalent_double_reorder], &[&|q: &Q| on(q, &[0, 1], neg), &|q: &Q| on(q, &[0, 2], neg), &|q: &Q| on(q, &[0, 3], neg), &|q: &Q| sw(&sw(q, 0, 1), 1, 2), &|q: &Q| sw(&sw(q, 0, 1), 2, 3)]),
        "full" => {
            g.push(&g_shift);
            g.push(&g_alt);
            g.extend(half2);
            g.push(&g_ns);
            g.push(&g_ns2);
            g.push(&g_ns3);
            f(n, QTS, QTS.equivalences(), &g)
        }
        "fullws" => {
            g.push(&g_alt);
            g.extend(half1);
            g.push(&g_n0);
            g.push(&g_s01);
            g.push(&g_s02);
            g.push(&g_s03);
            f(n, WS, WS.equivalences(), &g)
        }
        _ => {
            g.push(&g_shift);
            g.push(&g_alt);
            g.extend(half1);
            g.push(&g_n0);
            g.push(&g_s01);
            g.push(&g_s02);
            g.push(&g_s03);
            f(n, WTS, WTS.equivalences(), &g)
        }
    }
}
fn coprimes(n: usize) {
    let a = below(n as u64 + 1) as usize;
    let b = below(n as u64 + 1) as usize;
    assume(a > 0 && b > 0);
    let mut r = false;
    for i in 1..=n {
        for j in 1..=n {
            r |= (a == i) & (b == j) & (gcd(i, j) == 1);
        }
    }
    check(coprime(a, b) == r, "coprime: wrong verdict");
    reach();
}
harnesses! {
    vh_c05_shift_1 = uniform_shift(1);
    vh_c05_shift_2 = uniform_shift(2);
    vh_c05_shift_3 = uniform_shift(3);
    vh_c05_shift_4 = uniform_shift(4);
    vh_c05_shift_5 = uniform_shift(5);
    vh_c05_shift_6 = uniform_shift(6);
    vh_c05_shift_7 = uniform_shift(7);
    vh_c05_shift_8 = uniform_shift(8);
    vh_c05_shift_9 = uniform_shift(9);
    vh_c05_shift_10 = uniform_shift(10);
    vh_c05_shift_11 = uniform_shift(11);
    vh_c05_shift_12 = uniform_shift(12);
    vh_c05_shift_13 = uniform_shift(13);
    vh_c05_shift_14 = uniform_shift(14);
    vh_c05_shift_15 = uniform_shift(15);
    vh_c05_shift_16 = uniform_shift(16);
    vh_c05_shift_18 = uniform_shift(18);
    vh_c05_shift_20 = uniform_shift(20);
    vh_c05_shift_21 = uniform_shift(21);
    vh_c05_shift_22 = uniform_shift(22);
    vh_c05_shift_24 = uniform_shift(24);
    vh_c05_shift_25 = uniform_shift(25);
    vh_c05_shift_27 = uniform_shift(27);
    vh_c05_shift_28 = uniform_shift(28);
    vh_c05_shift_30 = uniform_shift(30);
    vh_c05_shift_32 = uniform_shift(32);
    vh_c05_shift_36 = uniform_shift(36);
    vh_c05_shift_40 = uniform_shift(40);
    vh_c05_half_1 = half(1);
    vh_c05_half_2 = half(2);
    vh_c05_half_3 = half(3);
    vh_c05_half_4 = half(4);
    vh_c05_half_5 = half(5);
    vh_c05_half_6 = half(6);
    vh_c05_half_7 = half(7);
    vh_c05_half_8 = half(8);
    vh_c05_half_9 = half(9);
    vh_c05_half_10 = half(10);
    vh_c05_half_11 = half(11);
    vh_c05_half_12 = half(12);
    vh_c05_half_13 = half(13);
    vh_c05_half_14 = half(14);
    vh_c05_half_15 = half(15);
    vh_c05_half_16 = half(16);
    vh_c05_half_18 = half(18);
    vh_c05_half_20 = half(20);
    vh_c05_half_21 = half(21);
    vh_c05_half_22 = half(22);
    vh_c05_half_24 = half(24);
    vh_c05_half_25 = half(25);
    vh_c05_half_27 = half(27);
    vh_c05_half_28 = half(28);
    vh_c05_half_30 = half(30);
    vh_c05_half_32 = half(32);
    vh_c05_half_36 = half(36);
    vh_c05_half_40 = half(40);
    vh_c05_signs_1 = signs(1);
    vh_c05_signs_2 = signs(2);
    vh_c05_signs_3 = signs(3);
    vh_c05_signs_4 = signs(4);
    vh_c05_signs_5 = signs(5);
    vh_c05_signs_6 = signs(6);
    vh_c05_signs_7 = signs(7);
    vh_c05_signs_8 = signs(8);
    vh_c05_signs_9 = signs(9);
    vh_c05_signs_10 = signs(10);
    vh_c05_signs_11 = signs(11);
    vh_c05_signs_12 = signs(12);
    vh_c05_signs_13 = signs(13);
    vh_c05_signs_14 = signs(14);
    vh_c05_signs_15 = signs(15);
    vh_c05_signs_16 = signs(16);
    vh_c05_signs_18 = signs(18);
    vh_c05_signs_20 = signs(20);
    vh_c05_signs_21 = signs(21);
    vh_c05_signs_22 = signs(22);
    vh_c05_signs_24 = signs(24);
    vh_c05_signs_25 = signs(25);
    vh_c05_signs_27 = signs(27);
    vh_c05_signs_28 = signs(28);
    vh_c05_signs_30 = signs(30);
    vh_c05_signs_32 = signs(32);
    vh_c05_signs_36 = signs(36);
    vh_c05_signs_40 = signs(40);
    vh_c05_orders_1 = orders(1);
    vh_c05_orders_2 = orders(2);
    vh_c05_orders_3 = orders(3);
    vh_c05_orders_4 = orders(4);
    vh_c05_orders_5 = orders(5);
    vh_c05_orders_6 = orders(6);
    vh_c05_orders_7 = orders(7);
    vh_c05_orders_8 = orders(8);
    vh_c05_orders_9 = orders(9);
    vh_c05_orders_10 = orders(10);
    vh_c05_orders_11 = orders(11);
    vh_c05_orders_12 = orders(12);
    vh_c05_orders_13 = orders(13);
    vh_c05_orders_14 = orders(14);
    vh_c05_orders_15 = orders(15);
    vh_c05_orders_16 = orders(16);
    vh_c05_orders_18 = orders(18);
    vh_c05_orders_20 = orders(20);
    vh_c05_orders_21 = orders(21);
    vh_c05_orders_22 = orders(22);
    vh_c05_orders_24 = orders(24);
    vh_c05_orders_25 = orders(25);
    vh_c05_orders_27 = orders(27);
    vh_c05_orders_28 = orders(28);
    vh_c05_orders_30 = orders(30);
    vh_c05_orders_32 = orders(32);
    vh_c05_orders_36 = orders(36);
    vh_c05_orders_40 = orders(40);
    vh_c05_auto_1 = automorphism(1);
    vh_c05_auto_2 = automorphism(2);
    vh_c05_auto_3 = automorphism(3);
    vh_c05_auto_4 = automorphism(4);
    vh_c05_auto_5 = automorphism(5);
    vh_c05_auto_6 = automorphism(6);
    vh_c05_auto_7 = automorphism(7);
    vh_c05_auto_8 = automorphism(8);
    vh_c05_auto_9 = automorphism(9);
    vh_c05_auto_10 = automorphism(10);
    vh_c05_auto_11 = automorphism(11);
    vh_c05_auto_12 = automorphism(12);
    vh_c05_auto_13 = automorphism(13);
    vh_c05_auto_14 = automorphism(14);
    vh_c05_auto_15 = automorphism(15);
    vh_c05_auto_16 = automorphism(16);
    vh_c05_auto_18 = automorphism(18);
    vh_c05_auto_20 = automorphism(20);
    vh_c05_auto_21 = automorphism(21);
    vh_c05_auto_22 = automorphism(22);
    vh_c05_auto_24 = automorphism(24);
    vh_c05_auto_25 = automorphism(25);
    vh_c05_auto_27 = automorphism(27);
    vh_c05_auto_28 = automorphism(28);
    vh_c05_auto_30 = automorphism(30);
    vh_c05_auto_32 = automorphism(32);
    vh_c05_auto_36 = automorphism(36);
    vh_c05_auto_40 = automorphism(40);
    vh_c05_class_auto_1 = with(1, "auto", class);
    vh_c05_slow_auto_1 = with(1, "auto", slow);
    vh_c05_class_auto_2 = with(2, "auto", class);
    vh_c05_slow_auto_2 = with(2, "auto", slow);
    vh_c05_class_auto_5 = with(5, "auto", class);
    vh_c05_slow_auto_5 = with(5, "auto", slow);
    vh_c05_class_auto_8 = with(8, "auto", class);
    vh_c05_class_auto_12 = with(12, "auto", class);
    vh_c05_class_auto_15 = with(15, "auto", class);
    vh_c05_class_auto_16 = with(16, "auto", class);
    vh_c05_class_auto_24 = with(24, "auto", class);
    vh_c05_class_auto_30 = with(30, "auto", class);
    vh_c05_class_auto_31 = with(31, "auto", class);
    vh_c05_class_shift_1 = with(1, "shift", class);
    vh_c05_slow_shift_1 = with(1, "shift", slow);
    vh_c05_class_shift_2 = with(2, "shift", class);
    vh_c05_slow_shift_2 = with(2, "shift", slow);
    vh_c05_class_shift_7 = with(7, "shift", class);
    vh_c05_class_shift_16 = with(16, "shift", class);
    vh_c05_class_shift_30 = with(30, "shift", class);
    vh_c05_class_shift_31 = with(31, "shift", class);
    vh_c05_class_qts_1 = with(1, "qts", class);
    vh_c05_slow_qts_1 = with(1, "qts", slow);
    vh_c05_class_qts_2 = with(2, "qts", class);
    vh_c05_slow_qts_2 = with(2, "qts", slow);
    vh_c05_class_qts_3 = with(3, "qts", class);
    vh_c05_slow_qts_3 = with(3, "qts", slow);
    vh_c05_class_qts_4 = with(4, "qts", class); // cost=2
    vh_c05_slow_qts_4 = with(4, "qts", slow);
    vh_c05_class_qts_5 = with(5, "qts", class);
    vh_c05_slow_qts_5 = with(5, "qts", slow);
    vh_c05_class_qts_6 = with(6, "qts", class); // cost=9
    vh_c05_slow_qts_6 = with(6, "qts", slow); // cost=9
    vh_c05_class_qts_7 = with(7, "qts", class);
    vh_c05_class_qts_8 = with(8, "qts", class); // cost=8
    vh_c05_class_qts_9 = with(9, "qts", class);
    vh_c05_class_qts_10 = with(10, "qts", class); // tier=thorough cost=43
    vh_c05_class_qts_12 = with(12, "qts", class); // cost=18
    vh_c05_class_wts_1 = with(1, "wts", class);
    vh_c05_slow_wts_1 = with(1, "wts", slow);
    vh_c05_class_wts_2 = with(2, "wts", class); // cost=3
    vh_c05_slow_wts_2 = with(2, "wts", slow); // cost=3
    vh_c05_class_wts_3 = with(3, "wts", class);
    vh_c05_slow_wts_3 = with(3, "wts", slow);
    vh_c05_class_wts_4 = with(4, "wts", class); // cost=4
    vh_c05_slow_wts_4 = with(4, "wts", slow); // cost=2
    vh_c05_class_wts_5 = with(5, "wts", class);
    vh_c05_slow_wts_5 = with(5, "wts", slow);
    vh_c05_class_wts_6 = with(6, "wts", class); // tier=thorough cost=44
    vh_c05_slow_wts_6 = with(6, "wts", slow); // tier=thorough cost=56
    vh_c05_class_wts_7 = with(7, "wts", class);
    vh_c05_class_wts_8 = with(8, "wts", class); // cost=18
    vh_c05_class_wts_9 = with(9, "wts", class);
    vh_c05_class_wts_10 = with(10, "wts", class); // tier=thorough cost=197
    vh_c05_class_ws_1 = with(1, "ws", class);
    vh_c05_slow_ws_1 = with(1, "ws", slow);
    vh_c05_class_ws_2 = with(2, "ws", class); // cost=4
    vh_c05_slow_ws_2 = with(2, "ws", slow); // cost=4
    vh_c05_class_ws_3 = with(3, "ws", class);
    vh_c05_slow_ws_3 = with(3, "ws", slow);
    vh_c05_class_ws_4 = with(4, "ws", class);
    vh_c05_slow_ws_4 = with(4, "ws", slow);
    vh_c05_class_ws_5 = with(5, "ws", class);
    vh_c05_slow_ws_5 = with(5, "ws", slow);
    vh_c05_class_ws_6 = with(6, "ws", class); // cost=16
    vh_c05_slow_ws_6 = with(6, "ws", slow); // cost=16
    vh_c05_class_ws_7 = with(7, "ws", class);
    vh_c05_class_ws_8 = with(8, "ws", class);
    vh_c05_class_ws_9 = with(9, "ws", class);
    vh_c05_class_ws_10 = with(10, "ws", class); // tier=thorough cost=41
    vh_c05_class_ws_12 = with(12, "ws", class); // cost=2
    vh_c05_class_ns_1 = with(1, "ns", class); // cost=3
    vh_c05_slow_ns_1 = with(1, "ns", slow); // cost=4
    vh_c05_class_ns_2 = with(2, "ns", class); // cost=4
    vh_c05_slow_ns_2 = with(2, "ns", slow); // cost=3
    vh_c05_class_ns_3 = with(3, "ns", class); // cost=3
    vh_c05_slow_ns_3 = with(3, "ns", slow); // cost=3
    vh_c05_class_ns_5 = with(5, "ns", class); // cost=3
    vh_c05_slow_ns_5 = with(5, "ns", slow); // cost=3
    vh_c05_class_sign_1 = with(1, "sign", class); // cost=4
    vh_c05_slow_sign_1 = with(1, "sign", slow); // cost=6
    vh_c05_class_sign_2 = with(2, "sign", class); // cost=6
    vh_c05_slow_sign_2 = with(2, "sign", slow); // cost=3
    vh_c05_class_sign_4 = with(4, "sign", class); // cost=5
    vh_c05_slow_sign_4 = with(4, "sign", slow); // cost=4
    vh_c05_class_even_1 = with(1, "even", class);
    vh_c05_slow_even_1 = with(1, "even", slow); // cost=2
    vh_c05_class_even_3 = with(3, "even", class); // cost=2
    vh_c05_slow_even_3 = with(3, "even", slow); // cost=2
    vh_c05_class_full_1 = with(1, "full", class); // cost=3
    vh_c05_slow_full_1 = with(1, "full", slow); // cost=4
    vh_c05_class_full_2 = with(2, "full", class); // tier=thorough cost=66
    vh_c05_class_fullws_1 = with(1, "fullws", class); // cost=4
    vh_c05_slow_fullws_1 = with(1, "fullws", slow); // cost=4
    vh_c05_class_fullws_2 = with(2, "fullws", class); // tier=thorough cost=267
    vh_c05_class_fullwts_1 = with(1, "fullwts", class); // cost=6
    vh_c05_slow_fullwts_1 = with(1, "fullwts", slow); // cost=7
    vh_c05_class_fullwts_2 = with(2, "fullwts", class); // tier=thorough cost=252
    vh_c05_coprime_8 = coprimes(8); // cost=3
}
