//! Checks of the real server binary, over the network.
mod client;
mod engine;
mod model;
mod props;
mod server;

use std::path::PathBuf;

use rvcommon::Report;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).expect("property id").clone();
    let root = PathBuf::from(std::env::var("RV_ROOT").unwrap_or("/verif".into()));
    // Many connections.
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(200_000);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    let mut r = Report::new(&id, &root);
    if let Some(p) = args.iter().position(|a| a == "--replay") {
        r.load_replay(&args[p + 1]);
    }
    match id.as_str() {
        "C01" => props::c01::run(&mut r),
        "C04" => props::c04::run(&mut r),
        "C07" => props::c07::run(&mut r),
        "C08" => props::c08::run(&mut r),
        "C09" => props::c09::run(&mut r),
        "C10" => props::c10::run(&mut r),
        "C11" => props::c11::run(&mut r),
        "C12" => props::c12::run(&mut r),
        "C13" => props::c13::run(&mut r),
        "C14" => props::c14::run(&mut r),
        "C19" => props::c19::run(&mut r),
        "C20" => props::c20::run(&mut r),
        "C02" => props::c02::run(&mut r),
        "C03" => props::c03::run(&mut r),
        "C17" => props::c17::run(&mut r),
        "C18" => props::c18::run(&mut r),
        "C21" => props::c21::run(&mut r),
        "C22" => props::c22::run(&mut r),
        "C23" => props::c23::run(&mut r),
        "C24" => props::c24::run(&mut r),
        "C25" => props::c25::run(&mut r),
        "C26" => props::c26::run(&mut r),
        "C27" => props::c27::run(&mut r),
        "C28" => props::c28::run(&mut r),
        "C29" => props::c29::run(&mut r),
        _ => panic!("unknown property {id}"),
    }
    r.finish();
}
