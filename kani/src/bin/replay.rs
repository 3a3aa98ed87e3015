//! Replays a counterexample against the real code: `replay HARNESS FILE`, where FILE has one
//! line of space separated decimal bytes per nondeterministic value.
//! `replay HARNESS --search SECONDS OUT` looks for such values at random, and writes them to OUT.
//! Exit 0: the violation was reproduced; 3: it was not; 4: the values break a precondition.
#[cfg(not(kani))]
fn main() {
    use tverif::nd::tape;
    let a: Vec<String> = std::env::args().collect();
    if a[2] == "--search" {
        let Some(f) = tverif::all_proofs().into_iter().find(|p| p.0 == a[1]).map(|p| p.1) else { std::process::exit(5) };
        let until = std::time::Instant::now() + std::time::Duration::from_secs(a[3].parse().unwrap());
        let out = a[4].clone();
        std::panic::set_hook(Box::new(|_| ()));
        let found = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                for seed in 1u64.. {
                    tape::TAPE.with(|t| *t.borrow_mut() = (Vec::new(), 0));
                    tape::RANDOM.with(|r| *r.borrow_mut() = Some(seed << 20));
                    let r = std::panic::catch_unwind(f);
                    let failed = tape::FAILS.with(|f| std::mem::take(&mut *f.borrow_mut()));
                    tape::LOG.with(|f| f.borrow_mut().clear());
                    if !failed.is_empty() || r.is_err_and(|e| !e.is::<tape::AssumptionNotMet>()) {
                        let vals = tape::TAPE.with(|t| t.borrow().0.clone());
                        let text: Vec<String> = vals.iter().map(|v| v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ")).collect();
                        std::fs::write(&out, text.join("\n") + "\n").unwrap();
                        return true;
                    }
                    if std::time::Instant::now() > until {
                        break;
                    }
                }
                false
            })
            .unwrap()
            .join()
            .unwrap_or(false);
        std::process::exit(if found { 0 } else { 3 });
    }
    let text = std::fs::read_to_string(&a[2]).expect("values");
    let vals: Vec<Vec<u8>> = text
        .lines()
        .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
        .collect();
    let Some(f) = tverif::all_proofs().into_iter().find(|p| p.0 == a[1]).map(|p| p.1) else {
        eprintln!("no harness {}", a[1]);
        std::process::exit(5);
    };
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            tape::TAPE.with(|t| *t.borrow_mut() = (vals, 0));
            let r = std::panic::catch_unwind(f);
            let log = tape::LOG.with(|f| f.borrow().clone());
            for l in log {
                println!("  {l}");
            }
            let fails = tape::FAILS.with(|f| f.borrow().clone());
            for m in &fails {
                println!("REPRODUCED: {m}");
            }
            match r {
                Ok(()) => !fails.is_empty() as i32 - 1,
                Err(e) if e.is::<tape::AssumptionNotMet>() => {
                    if fails.is_empty() {
                        1
                    } else {
                        0
                    }
                }
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    println!("REPRODUCED: panic in the code under verification: {m}");
                    0
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    std::process::exit(match r {
        0 => 0,
        1 => 4,
        _ => 3,
    });
}
#[cfg(kani)]
fn main() {}
