//! Exhaustive bounded exploration of the modem and rig drivers (C11-C19, C22, C23, C25, C26).
mod commands;
mod history;
mod kit;
mod link;
#[cfg(feature = "log")]
mod log;
mod ports;
mod rig;
mod session;
mod slow;
mod status;
mod user;

use report::*;
use std::time::{Duration, Instant};

static START: std::sync::OnceLock<(Instant, Duration)> = std::sync::OnceLock::new();
/// When exploring must stop, so that a check always answers.
pub fn deadline() -> Instant { let (t, d) = START.get().unwrap(); *t + *d }

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = if args.get(2).map(String::as_str) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let limit = std::env::var("MC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 500 } else { 7200 });
    START.set((Instant::now(), Duration::from_secs(limit))).unwrap();
    let check = Check::new(args.get(1).expect("property"), tier);
    match args[1].as_str() {
        "C11" => commands::c11(&check),
        "C12" => commands::c12(&check),
        "C13" => status::c13(&check),
        "C14" => link::c14(&check),
        "C18" => link::c18(&check),
        "C15" => session::c15(&check),
        "C16" => session::c16(&check),
        "C26" => slow::c26(&check),
        "C25" => session::c25(&check),
        "C17" => session::c17(&check),
        "C19" => rig::c19(&check),
        "C23" => ports::c23(&check),
        #[cfg(feature = "log")]
        "C22" => log::c22(&check),
        other => panic!("unknown property {other}"),
    }
    std::process::exit(check.finish_code());
}
