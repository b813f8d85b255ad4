//! Native runner: vhrun HARNESS MODEL.json SCRATCH -> 0 held, 10 assertion failed,
//! 101 panicked, 12 an assumption was not met, 2 unknown harness.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).expect("model");
    // {"bits": [..ids that are 1..], ...}
    let i = t.find("\"bits\"").expect("bits");
    let s = &t[i..];
    let l = s.find('[').unwrap();
    let r = s.find(']').unwrap();
    let bits = s[l + 1..r].split(',').filter_map(|x| x.trim().parse::<u64>().ok()).collect();
    qs::set_model(bits);
    std::env::set_current_dir(&a[3]).expect("scratch");
    if !qsut::vh::dispatch(&a[1]) {
        std::process::exit(2);
    }
}
