//! Deterministic simulation of geom3d with fault injection.
//!
//!   dst check PROP [--tier quick|thorough]   seeded search, evidence, replay files
//!   dst replay FILE                          repeat one recorded run exactly
//!   dst show PROP INDEX [VARIANT]            print a generated scenario
//!   dst run FILE                             decide a scenario and print its report
#![allow(static_mut_refs)]
mod check;
mod content;
mod exec;
mod gen;
mod geo;
mod judge;
mod plan;
mod run;
mod scn;
mod shrink;
mod step;
mod stepgen;
mod topo;
mod valid;

#[global_allocator]
static A: simos::alloc::SimAlloc = simos::alloc::SimAlloc;

/// Addresses must not vary between runs.
fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        let p = libc::personality(0xffffffff);
        if p >= 0 && (p as u64 & ADDR_NO_RANDOMIZE) == 0 && std::env::var("DST_NOASLR").is_err() {
            if libc::personality(p as u64 | ADDR_NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("DST_NOASLR", "1").exec();
                let _ = e;
            }
        }
    }
}

fn main() {
    no_aslr();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check::check(&a[1], &opt),
        Some("replay") => check::replay(&a[1]),
        Some("show") => check::show(&a[1], &a[2], a.get(3)),
        Some("run") => check::run_file(&a[1], a.iter().any(|x| x == "--log")),
        Some("steptext") => check::steptext(&a[1]),
        _ => {
            eprintln!("usage: dst check PROP | replay FILE | show PROP INDEX [VARIANT] | run FILE");
            2
        }
    };
    std::process::exit(code);
}
