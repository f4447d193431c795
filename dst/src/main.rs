//! Deterministic simulation of ratel: see ../DESIGN.md.
mod driver;
mod exec;
mod gen;
mod heap;
mod known;
mod minimize;
mod props;
mod scen;
mod sim;
mod worker;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: heap::SimAlloc = heap::SimAlloc;

pub fn root() -> PathBuf {
    std::env::var_os("DST_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn no_aslr() {
    // addresses outside the simulated heap and stacks are made repeatable as well, where allowed
    unsafe {
        if std::env::var_os("DST_CHILD").is_some() {
            return;
        }
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p as u64 & 0x0040000 == 0 && libc::personality(p as u64 | 0x0040000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("DST_CHILD", "1").exec();
            let _ = e;
        }
    }
}

fn main() {
    no_aslr();
    unsafe {
        if !heap::reserve() {
            eprintln!("dst: cannot reserve the simulated heap");
            std::process::exit(2);
        }
        sim::install_signals();
    }
    exec::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => driver::check(&args[1..]),
        Some("replay") => driver::replay(&args[1..]),
        Some("show") => driver::show(&args[1..]),
        Some("stats") => driver::stats(&args[1..]),
        Some("probe") => driver::probe(&args[1..]),
        _ => {
            eprintln!("usage: dst check PROPERTY [--tier T] [--seed N] [--jobs N] [--epochs N] [--seconds S] | replay FILE | probe FILE");
            2
        }
    };
    std::process::exit(code);
}
