mod check;
mod inst;
#[cfg(feature = "full")]
mod mat;
#[cfg(feature = "full")]
mod ffi;
mod gen;
#[cfg(feature = "std")]
mod histories;
#[cfg(feature = "std")]
mod mem;
#[cfg(feature = "std")]
mod pairs;
mod props;
#[cfg(feature = "std")]
mod race;
mod report;
mod resp;

/// mon PROPERTY SEED TIER SECONDS OUT [CASE]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: mon PROPERTY SEED TIER SECONDS OUT [CASE]");
        std::process::exit(2);
    }
    inst::install_panic_hook();
    let only = a.get(6).map(|x| x.parse().expect("case"));
    let mut rep = report::Report::new(
        &a[1],
        a[2].parse().expect("seed"),
        &a[3],
        a[4].parse().expect("seconds"),
        only,
    );
    rep.progress = std::fs::File::create(format!("{}.case", a[5])).ok();
    props::run_prop(&mut rep);
    std::fs::write(&a[5], rep.json()).expect("write result");
}
