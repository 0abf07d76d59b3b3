#![allow(clippy::all)]
mod alloc;
mod core;
mod eng;
mod bench;
mod c01;
mod c02;
mod c04;
mod c05;
mod c09;
mod c03;
mod c06;
mod c07;
mod c08;
mod c10;
mod c13;
mod c12;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c26;
mod c30;
mod c29;
mod c27;
mod c25;
mod c24;
mod c22;
mod c21;
mod midi;
mod churn;
mod gen;
mod sys;

use crate::core::*;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let variant = std::env::var("VERIF_VARIANT").unwrap_or("dbg".into());
    let only = if args.get(2).map(|s| s == "replay").unwrap_or(false) {
        Some((args[3].clone(), args[4].parse().expect("case")))
    } else {
        None
    };
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(64);
    redirect_stdout();
    install_panic_hook();
    let mut rep = Report::new(Opts { id: id.clone(), thorough, seed, verif, only, threads, variant });
    match id.as_str() {
        "C01" => c01::run_c01(&mut rep),
        "C02" => c02::run(&mut rep),
        "C03" => c03::run(&mut rep),
        "C09" => c09::run(&mut rep),
        "C04" => c04::run(&mut rep),
        "C05" => c05::run(&mut rep),
        "C06" => c06::run(&mut rep),
        "C07" => c07::run(&mut rep),
        "C08" => c08::run(&mut rep),
        "C10" => c10::run(&mut rep),
        "C13" => c13::run(&mut rep),
        "C12" => c12::run(&mut rep),
        "C14" => c14::run(&mut rep),
        "C15" => c15::run(&mut rep),
        "C16" => c16::run(&mut rep),
        "C17" => c17::run(&mut rep),
        "C18" => c18::run(&mut rep),
        "C19" => c19::run(&mut rep),
        "C20" => c20::run(&mut rep),
        "C26" => c26::run(&mut rep),
        "C30" => c30::run(&mut rep),
        "C29" => c29::run(&mut rep),
        "C27" => c27::run(&mut rep),
        "C25" => c25::run(&mut rep),
        "C24" => c24::run(&mut rep),
        "C22" => c22::run(&mut rep),
        "C21" => c21::run(&mut rep),
        "C11" => midi::run_c11(&mut rep),
        "C28" => midi::run_c28(&mut rep),
        "C23" => c01::run_c23(&mut rep),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(3);
        }
    }
    std::process::exit(rep.finish());
}
