//! Exhaustive bounded checks of the codecs and text parsers (C01-C10).
#[cfg(feature = "lzhuf")]
mod compress;
#[allow(dead_code)]
mod lz;
#[allow(dead_code)]
mod words;
#[cfg(feature = "crc16")]
mod crc;
#[cfg(feature = "transfer")]
mod transfer;
#[cfg(feature = "proposal")]
mod lines;
#[cfg(feature = "station")]
mod station;

use report::*;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("one") { return one(&args[2..]); }
    let tier = if args.get(2).map(String::as_str) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let check = Check::new(args.get(1).expect("property"), tier);
    match args[1].as_str() {
        #[cfg(feature = "lzhuf")]
        "C01" => compress::c01(&check),
        #[cfg(feature = "lzhuf")]
        "C02" => compress::c02(&check),
        #[cfg(feature = "lzhuf")]
        "C03" => compress::c03(&check),
        #[cfg(feature = "lzhuf")]
        "C04" => compress::c04(&check),
        #[cfg(feature = "crc16")]
        "C05" => crc::c05(&check),
        #[cfg(feature = "transfer")]
        "C06" => transfer::c06(&check),
        #[cfg(feature = "transfer")]
        "C07" => transfer::c07(&check),
        #[cfg(feature = "transfer")]
        "C08" => transfer::c08(&check),
        #[cfg(feature = "proposal")]
        "C09" => lines::c09(&check),
        #[cfg(feature = "station")]
        "C10" => station::c10(&check),
        other => panic!("unknown property {other}"),
    }
    std::process::exit(check.finish_code());
}

/// Replays one case: `codec one <case> <hex> [size]`.
fn one(args: &[String]) {
    let input = unhex(&args[1]);
    let size = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(input.len());
    let _ = size;
    let result: Result<(), String> = match args[0].as_str() {
        #[cfg(feature = "lzhuf")]
        "roundtrip" => compress::roundtrip_one(&input).map(|_| ()),
        #[cfg(feature = "lzhuf")]
        "interop" => compress::interop_one(&input).map(|_| ()),
        #[cfg(feature = "lzhuf")]
        "hostile" | "stream" => compress::hostile_one(&input, size),
        #[cfg(feature = "crc16")]
        "crc" => crc::one(&input),
        #[cfg(feature = "transfer")]
        "transfer" => transfer::one(&input),
        #[cfg(feature = "proposal")]
        "line" => lines::one(&input),
        #[cfg(feature = "station")]
        "station" => station::one(&input),
        other => panic!("unknown case {other}"),
    };
    match result {
        Ok(()) => println!("ok"),
        Err(e) => { println!("{e}"); std::process::exit(1); }
    }
}
