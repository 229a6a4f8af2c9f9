#![feature(alloc_error_hook)]
//! lolsim: deterministic simulation of lolcode-ast and its callers. See /verif/DESIGN.md.
mod checks;
mod cost;
mod dbgtree;
mod disk;
mod driver;
mod exec;
mod gen;
mod lang;
mod minimise;
mod model;
mod rng;
mod scn;
mod sim;
mod sys;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if sys::fix_addresses() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe").args(&args).exec();
        eprintln!("cannot re-execute: {}", e);
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[..] {
        ["check", prop] => driver::check(prop),
        ["replay", file] => driver::replay(file),
        ["selftest", n] => driver::selftest(n.parse().unwrap_or(20)),
        ["show", prop, seed] => {
            driver::prepare();
            print!("{}", checks::draw(prop, seed.parse().unwrap_or(0)).write());
            0
        }
        _ => {
            eprintln!("usage: lolsim check PROP | replay FILE | selftest N | show PROP SEED");
            2
        }
    };
    std::process::exit(code);
}
