//! Makes the calls of scripts generated from the specification, and records the outcomes.

use crate::fields::*;
use crate::json::J;
use crate::rec::Rec;
use crate::{mat, misc, mono, num, poly};
use algeo::core::num::Rational;

/// runs a generic function over the type a call names
macro_rules! of_type {
    ($e:expr, $($f:ident)::+, $($arg:expr),*) => {
        match ($e.get("T").str(), $e.get("F").int()) {
            ("Rational", _) => $($f)::+::<Rational>($($arg),*),
            ("f64", _) => $($f)::+::<f64>($($arg),*),
            ("f32", _) => $($f)::+::<f32>($($arg),*),
            ("Gf", 2) => $($f)::+::<Gf<2>>($($arg),*),
            ("Gf", 3) => $($f)::+::<Gf<3>>($($arg),*),
            ("Gf", 5) => $($f)::+::<Gf<5>>($($arg),*),
            ("Gf", 7) => $($f)::+::<Gf<7>>($($arg),*),
            ("Gf", 101) => $($f)::+::<Gf<101>>($($arg),*),
            ("Gf", 32003) => $($f)::+::<Gf<32003>>($($arg),*),
            (t, f) => panic!("unknown type {} {}", t, f),
        }
    };
}
pub(crate) use of_type;

pub fn run(rec: &mut Rec, path: &str) {
    let text = std::fs::read_to_string(path).expect("scripts");
    let mut n = 0;
    for line in text.lines().filter(|l| !l.is_empty()) {
        let script = J::parse(line);
        let calls = script.arr();
        let first = match calls.first() {
            Some(c) => c,
            None => continue,
        };
        n += 1;
        let kind = first.op().split('.').next().unwrap();
        let typed = first.opt("F").is_some();
        match kind {
            "u" | "d" | "c" => misc::replay(rec, calls),
            "p" | "t" | "g" => of_type!(first, poly::replay, rec, calls),
            "f" => num::field_replay(rec, calls),
            "r" | "i" if !typed => num::replay(rec, calls),
            "m" | "o" if !typed => mono::replay(rec, calls),
            _ => of_type!(first, mat::replay, rec, calls),
        }
    }
    println!("scripts {}", n);
}
