mod fields;
mod json;
mod mat;
mod misc;
mod mono;
mod num;
mod poly;
mod rec;
mod replay;
mod rng;

use rec::Rec;
use rng::Rng;

/// usage: algeo-conformance record <property> <trace file> <seed> <events>
///        algeo-conformance replay <property> <trace file> <seed> <events> <scripts>
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scripts = if args[1] == "replay" { Some(args[6].clone()) } else { None };
    let prop = args[2].clone();
    let path = args[3].clone();
    let seed: u64 = args[4].parse().unwrap();
    let events: usize = args[5].parse().unwrap();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut rec = Rec::create(&path, 60, events);
            if let Some(path) = scripts {
                replay::run(&mut rec, &path);
                println!("events {}", rec.events);
                return;
            }
            let salt: u64 = prop.bytes().fold(0, |a, c| a * 31 + c as u64);
            let mut r = Rng::new(seed.wrapping_mul(1000003) ^ salt);
            match prop.as_str() {
                "C01" | "C02" => num::rationals(&mut rec, &mut r, false),
                "C03" => num::rationals(&mut rec, &mut r, true),
                "C04" => num::integers(&mut rec, &mut r),
                "C05" => mono::monoid(&mut rec, &mut r),
                "C06" => mono::orders(&mut rec, &mut r),
                "C07" | "C08" => poly::ring(&mut rec, &mut r),
                "C09" => poly::evaluation(&mut rec, &mut r),
                "C10" => poly::division(&mut rec, &mut r),
                "C11" => poly::leading(&mut rec, &mut r),
                "C12" | "C13" | "C14" => poly::bases(&mut rec, &mut r, &prop),
                "C15" => mat::algebra(&mut rec, &mut r),
                "C16" => mat::rows(&mut rec, &mut r),
                "C17" | "C18" | "C19" | "C24" => mat::elimination(&mut rec, &mut r, &prop),
                "C20" => misc::helpers(&mut rec, &mut r),
                "C21" => misc::rendering(&mut rec, &mut r),
                "C22" => misc::cones(&mut rec, &mut r),
                "C23" => num::fields(&mut rec, &mut r),
                _ => {
                    eprintln!("unknown property {}", prop);
                    std::process::exit(2)
                }
            }
            println!("events {}", rec.events);
        })
        .unwrap()
        .join()
        .expect("driver");
}
