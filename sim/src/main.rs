mod bench;
mod content;
mod build;
mod draws;
mod order;
mod driver;
mod exec;
mod formula;
mod gen;
mod interpose;
mod judge;
mod mix;
mod oracle;
mod plan;
mod rng;
mod rt;
mod run;
mod spec;
mod sys;

fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "3");
    interpose::init();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(0);
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") => driver::check(&a[2]),
        Some("replay") => driver::replay(&a[2]),
        Some("one") => driver::one(&a[2], n(3), n(4)),
        _ => {
            println!("usage: trane-sim check PROPERTY | replay FILE | one PROPERTY SEED [VARIANT]");
            2
        }
    };
    std::process::exit(code);
}
