//! dst: deterministic simulation of corries with fault injection.
//!   dst check <property> <tier>     search; exit 1 and a replay file on a violation
//!   dst replay <file>               re-executes a replay file
//!   dst show <property> <case>      runs one case of the search and prints it
//!   dst selftest [n]                every case twice, in different processes: identical histories?
mod core;
mod exec;
mod gen;
mod hist;
mod master;
mod model;
mod props;

#[global_allocator]
static HEAP: simrt::mem::Counting = simrt::mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match a[..] {
        ["check", prop, tier] => master::check(prop, tier),
        ["replay", file] => master::replay(file),
        ["show", prop, case] => master::show(prop, case.parse().unwrap()),
        ["selftest", n] => master::selftest(n.parse().unwrap()),
        ["list"] => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        },
        _ => {
            eprintln!("usage: dst check <property> <tier> | replay <file> | show <property> <case> | selftest <n>");
            2
        },
    };
    std::process::exit(code)
}
