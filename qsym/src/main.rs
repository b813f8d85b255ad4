//! qsym: bounded symbolic execution of a whole program's LLVM IR.
//!
//! usage: qsym <file.ll> <entry> [--out FILE] [--dir DIR] [--timeout S] [--feas MS] [--trace] [--max-steps N]
mod exec;
mod expr;
mod ir;
mod mem;
mod smt;
use exec::*;
use expr::*;
use smt::*;
use std::collections::HashMap;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

struct Opt {
    ll: String,
    entry: String,
    out: Option<String>,
    dir: String,
    timeout: f64,
    feas: u64,
    trace: bool,
    max_steps: u64,
}

#[derive(Default)]
struct Report {
    verdict: String,
    detail: String,
    kind: String,
    obligations: usize,
    by_solver: usize,
    asserts: u64,
    asserts_trivial: u64,
    queries: u64,
    feas_queries: u64,
    feas_pruned: u64,
    solver_s: f64,
    exec_s: f64,
    steps: u64,
    blocks: u64,
    forks: u64,
    inputs: usize,
    vars: usize,
    reach: usize,
    functions: Vec<String>,
    model: Vec<(u64, bool)>,
    witness: Vec<(u64, bool)>,
    solvers: Vec<String>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: qsym file.ll entry [options]");
        std::process::exit(3);
    }
    let mut o = Opt { ll: a[1].clone(), entry: a[2].clone(), out: None, dir: "/tmp".into(), timeout: 600.0, feas: 2000, trace: false, max_steps: u64::MAX };
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--out" => {
                o.out = Some(a[i + 1].clone());
                i += 1;
            }
            "--dir" => {
                o.dir = a[i + 1].clone();
                i += 1;
            }
            "--timeout" => {
                o.timeout = a[i + 1].parse().unwrap();
                i += 1;
            }
            "--feas" => {
                o.feas = a[i + 1].parse().unwrap();
                i += 1;
            }
            "--max-steps" => {
                o.max_steps = a[i + 1].parse().unwrap();
                i += 1;
            }
            "--trace" => o.trace = true,
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(3);
            }
        }
        i += 1;
    }
    let h = std::thread::Builder::new().stack_size(6 << 30).spawn(move || run(o)).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn run(o: Opt) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Unsupported>().is_none() {
            eprintln!("{}", i);
        }
    }));
    let t0 = Instant::now();
    let mut rep = Report::default();
    let mut cell: Option<Engine> = None;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(&o, &mut rep, &mut cell)));
    if let Err(e) = r {
        rep.verdict = "unsupported".into();
        rep.detail = match e.downcast_ref::<Unsupported>() {
            Some(u) => u.0.clone(),
            None => match e.downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_else(|| "internal error".into()),
            },
        };
    }
    if let Some(e) = &cell {
        rep.steps = e.steps;
        rep.blocks = e.nblocks;
        rep.forks = e.forks;
        rep.asserts = e.assert_count;
        rep.asserts_trivial = e.assert_trivial;
        rep.inputs = e.bits.len();
        rep.vars = e.c.vars.len();
        rep.feas_queries = e.feas_queries;
        rep.feas_pruned = e.feas_pruned;
        if let Some(s) = &e.solver {
            rep.queries += s.queries;
            rep.solver_s += s.time;
        }
        rep.functions = e.functions.iter().map(|f| e.m.sym(*f).name.to_string()).collect();
        rep.functions.sort();
        if rep.verdict == "unsupported" {
            rep.detail.push_str(&format!(" [in {}]", e.call_stack.iter().rev().take(6).map(|s| s.to_string()).collect::<Vec<_>>().join(" < ")));
        }
        if o.trace {
            e.report_forks();
        }
    }
    if rep.exec_s == 0.0 {
        rep.exec_s = t0.elapsed().as_secs_f64();
    }
    let list = |m: &Vec<(u64, bool)>| m.iter().map(|(k, b)| format!("\"{}\": {}", k, *b as u8)).collect::<Vec<_>>().join(", ");
    let json = format!(
        "{{\"entry\": \"{}\", \"verdict\": \"{}\", \"kind\": \"{}\", \"detail\": \"{}\", \"obligations\": {}, \"by_solver\": {}, \"asserts\": {}, \"asserts_by_normal_form\": {}, \"queries\": {}, \"feasibility_queries\": {}, \"feasibility_pruned\": {}, \"solver_s\": {:.3}, \"exec_s\": {:.3}, \"total_s\": {:.3}, \"steps\": {}, \"blocks\": {}, \"forks\": {}, \"input_bits\": {}, \"vars\": {}, \"reach\": {}, \"solvers\": [{}], \"model\": {{{}}}, \"witness\": {{{}}}, \"functions\": [{}]}}\n",
        esc(&o.entry),
        rep.verdict,
        rep.kind,
        esc(&rep.detail),
        rep.obligations,
        rep.by_solver,
        rep.asserts,
        rep.asserts_trivial,
        rep.queries,
        rep.feas_queries,
        rep.feas_pruned,
        rep.solver_s,
        rep.exec_s,
        t0.elapsed().as_secs_f64(),
        rep.steps,
        rep.blocks,
        rep.forks,
        rep.inputs,
        rep.vars,
        rep.reach,
        rep.solvers.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(", "),
        list(&rep.model),
        list(&rep.witness),
        rep.functions.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ")
    );
    match &o.out {
        Some(f) => std::fs::write(f, &json).unwrap(),
        None => println!("{}", json),
    }
    let code = match rep.verdict.as_str() {
        "holds" => 0,
        "violated" => 1,
        _ => 2,
    };
    // skip destructors of huge structures
    std::process::exit(code)
}

fn go(o: &Opt, rep: &mut Report, cell: &mut Option<Engine>) {
    let t0 = Instant::now();
    let m = ir::Module::load(&o.ll);
    let mut e = Engine::new(m);
    e.trace = o.trace;
    e.max_steps = o.max_steps;
    e.solver = Some(Solver::new(o.feas));
    *cell = Some(e);
    let e = cell.as_mut().unwrap();
    let fin = e.run(&o.entry);
    rep.exec_s = t0.elapsed().as_secs_f64();
    rep.reach = e.reach.len();
    rep.obligations = e.obligations.len();
    let dir = &o.dir;
    let base = format!("{}.{}", o.entry, std::process::id());
    let mut left = || (o.timeout - t0.elapsed().as_secs_f64()).max(1.0);
    let mut ps: Vec<P> = e.obligations.iter().map(|x| x.p).collect();
    ps.sort_unstable();
    ps.dedup();
    rep.by_solver = ps.len();
    let portfolio = ["z3", "z3sat", "cvc5"];
    let bits: HashMap<u32, u64> = e.bits.iter().map(|(k, v)| (*v, *k)).collect();
    let tomodel = |m: &HashMap<u32, bool>| -> Vec<(u64, bool)> {
        let mut v: Vec<(u64, bool)> = m.iter().filter_map(|(v, b)| bits.get(v).map(|k| (*k, *b))).collect();
        v.sort();
        v
    };
    let mut verdict = "holds".to_string();
    if !ps.is_empty() {
        let q = build_query(&mut e.c, &ps);
        let t = left();
        let (mut ans, dt, who) = solve(&q, dir, &base, if ps.len() > 1 { t * 0.5 } else { t }, &portfolio);
        rep.queries += 1;
        rep.solver_s += dt;
        if !who.is_empty() {
            rep.solvers.push(who);
        }
        if matches!(ans, Answer::Unknown(_)) && ps.len() > 1 {
            // one by one
            let qs: Vec<(usize, Query)> = ps.iter().enumerate().map(|(i, p)| (i, build_query(&mut e.c, &[*p]))).collect();
            let next = std::sync::atomic::AtomicUsize::new(0);
            let res = std::sync::Mutex::new((0usize, None::<HashMap<u32, bool>>, 0f64, 0u64));
            let deadline = left();
            let st = Instant::now();
            std::thread::scope(|sc| {
                for _ in 0..4 {
                    sc.spawn(|| loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if k >= qs.len() || res.lock().unwrap().1.is_some() {
                            break;
                        }
                        let rem = deadline - st.elapsed().as_secs_f64();
                        if rem <= 0.0 {
                            break;
                        }
                        let (a, dt, _) = solve(&qs[k].1, dir, &format!("{}.{}", base, k), rem, &["z3", "cvc5"]);
                        if std::env::var("QSYM_KEEP").is_err() { let _ = std::fs::remove_file(format!("{}/{}.{}.smt2", dir, base, k)); }
                        let mut g = res.lock().unwrap();
                        g.2 += dt;
                        g.3 += 1;
                        match a {
                            Answer::Unsat => g.0 += 1,
                            Answer::Sat(m) => g.1 = Some(m),
                            _ => {}
                        }
                    });
                }
            });
            let g = res.into_inner().unwrap();
            rep.solver_s += g.2;
            rep.queries += g.3;
            if let Some(m) = g.1 {
                ans = Answer::Sat(m);
            } else if g.0 == ps.len() {
                ans = Answer::Unsat;
            }
        }
        match ans {
            Answer::Unsat => {}
            Answer::Sat(m) => {
                let mut ev = Eval { c: &e.c, m: &m, memo: HashMap::new() };
                let mut hit = None;
                for ob in &e.obligations {
                    if ev.num(ob.p) != 0 {
                        hit = Some((ob.kind, ob.msg.clone()));
                        break;
                    }
                }
                match hit {
                    Some((k, msg)) => {
                        verdict = "violated".into();
                        rep.kind = k.into();
                        rep.detail = msg;
                        rep.model = tomodel(&m);
                    }
                    None => {
                        verdict = "unsupported".into();
                        rep.detail = "the solver's model does not satisfy any obligation (encoding error)".into();
                    }
                }
            }
            Answer::Unknown(s) => {
                verdict = "timeout".into();
                rep.detail = format!("{} ({} obligations)", s, ps.len());
            }
        }
    }
    if verdict == "holds" {
        // the harness must be able to reach its end
        match fin {
            Err(s) => {
                verdict = "vacuous".into();
                rep.detail = s;
            }
            Ok(_) => {
                let rs = e.reach.clone();
                if rs.is_empty() {
                    verdict = "vacuous".into();
                    rep.detail = "no reach point".into();
                } else {
                    // every reach point must be reachable; the first gives the witness
                    let mut uniq = rs.clone();
                    uniq.sort_unstable();
                    uniq.dedup();
                    for (i, p) in uniq.iter().enumerate() {
                        let q = build_query(&mut e.c, &[*p]);
                        let t = left();
                        let (a, dt, _) = solve(&q, dir, &if std::env::var("QSYM_KEEP").is_ok() { format!("{}.r", base) } else { base.clone() }, t, &portfolio);
                        rep.queries += 1;
                        rep.solver_s += dt;
                        match a {
                            Answer::Sat(m) => {
                                if i == 0 {
                                    let mut ev = Eval { c: &e.c, m: &m, memo: HashMap::new() };
                                    if ev.num(*p) == 0 {
                                        verdict = "unsupported".into();
                                        rep.detail = "witness model does not evaluate to true (encoding error)".into();
                                    }
                                    rep.witness = tomodel(&m);
                                }
                            }
                            Answer::Unsat => {
                                verdict = "vacuous".into();
                                rep.detail = "a reach point is unreachable".into();
                            }
                            Answer::Unknown(s) => {
                                verdict = "timeout".into();
                                rep.detail = format!("reachability: {}", s);
                            }
                        }
                    }
                }
            }
        }
    }
    if std::env::var("QSYM_KEEP").is_err() { let _ = std::fs::remove_file(format!("{}/{}.smt2", dir, base)); }
    rep.verdict = verdict;
}
