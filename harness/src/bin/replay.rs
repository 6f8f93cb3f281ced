//! replay ENTRY IN1,IN2,... : run one entry natively on recorded inputs.
//! replay --batch: read "ENTRY IN1,IN2,..." lines, print one outcome line for each.
use std::panic::{catch_unwind, AssertUnwindSafe};
fn run(entry: &str, ins: Vec<u64>) -> String {
    let Some(f) = harness::find(entry) else { return "outcome=noentry".into() };
    harness::sym::ST.with(|s| *s.borrow_mut() = (ins, 0, vec![]));
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let (used, obs) = harness::sym::ST.with(|s| { let s = s.borrow(); (s.1, s.2.clone()) });
    let out = match r {
        Ok(()) => "ok".to_string(),
        Err(e) => if let Some(s) = e.downcast_ref::<harness::sym::Stop>() { s.0.clone() } else { "panic".to_string() },
    };
    format!("outcome={}\tused={}\tobs={}", out, used, obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn nums(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect() }
fn main() {
    #[cfg(any(feature = "c22", feature = "c27"))]
    if let Ok(which) = std::env::var("HARNESS_MAIN") {
        harness::sym::ST.with(|s| *s.borrow_mut() = (nums(&std::env::var("HARNESS_INPUTS").unwrap()), 0, vec![]));
        let ok = harness::tool(&which);
        let _ = std::fs::write(std::env::var("HARNESS_USED").unwrap(), harness::sym::ST.with(|s| s.borrow().1.to_string()));
        std::process::exit(if ok { 0 } else { 9 });
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let go = move || {
        if a[0] == "--batch" {
            std::panic::set_hook(Box::new(|_| {}));
            for l in std::io::stdin().lines() { let l = l.unwrap(); let mut p = l.split(' '); let e = p.next().unwrap(); let i = nums(p.next().unwrap_or("")); println!("{}", run(e, i)); }
        } else {
            let r = run(&a[0], nums(a.get(1).map(|s| s.as_str()).unwrap_or("")));
            println!("{}", r);
            if !r.starts_with("outcome=ok") { std::process::exit(1) }
        }
    };
    std::thread::Builder::new().stack_size(1 << 28).spawn(go).unwrap().join().unwrap();
}
