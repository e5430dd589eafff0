#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
mod calls;
mod driver;
mod effects;
mod gen;
mod mirror;
mod model;
mod pinned;
mod props;
mod rng;
mod rt;
mod sinks;

use driver::Tier;

#[global_allocator]
static ALLOC: rt::Alloc = rt::Alloc;

fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("YSIM_NOASLR").is_none() {
            libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64);
            std::env::set_var("YSIM_NOASLR", "1");
            use std::os::unix::process::CommandExt;
            let exe = std::env::current_exe().unwrap();
            let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
            eprintln!("re-exec failed: {e}");
        }
    }
}

fn main() {
    no_aslr();
    std::panic::set_hook(Box::new(|i| {
        rt::HOOKED.with(|h| h.set(h.get() + 1));
        if rt::cur() < 0 && std::env::var_os("YSIM_DEBUG").is_some() {
            eprintln!("{i}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let t = std::env::var("VERIF_TIER").unwrap_or_default();
            driver::check(&a[2], seed, tier(a.get(3).unwrap_or(&t)))
        }
        Some("worker") => {
            let p = props::by_id(&a[2]).expect("property");
            let s = driver::worker(&*p, a[3].parse().unwrap(), tier(&a[4]), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap());
            println!("SUMMARY {}", serde_json::to_string(&s).unwrap());
            0
        }
        Some("replay") => driver::replay(&a[2]),
        Some("case") => {
            let p = props::by_id(&a[2]).expect("property");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let c = driver::case_of(&*p, seed, Tier::Quick, a[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            println!("{:?}", driver::execute(&*p, &c));
            0
        }
        _ => {
            eprintln!("usage: ysim check ID [quick|thorough] | replay FILE | case ID N");
            2
        }
    };
    std::process::exit(code);
}
