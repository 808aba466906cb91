use std::panic;
use std::time::{Duration, Instant};
use ml_kem::kv_unit::{last, Hit, Rng};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let secs: u64 = a[2].parse().unwrap();
    panic::set_hook(Box::new(|_| {}));
    let fns: &[(&str, fn(&mut Rng) -> Hit)] = &[/*FNS*/];
    let end = Instant::now() + Duration::from_secs(secs);
    let mut rng = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let mut n = 0u64;
    loop {
        for (name, f) in fns {
            if n > 0 && name.contains("once") {
                continue;
            }
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(&mut rng)));
            let hit = match r {
                Ok(h) => h,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    Some(format!("panic '{m}' in {}", last()))
                }
            };
            if let Some(h) = hit {
                println!("HIT {name} round {n}: {h}");
                std::process::exit(1);
            }
        }
        n += 1;
        if Instant::now() > end {
            println!("NONE {n} rounds");
            return;
        }
    }
}
