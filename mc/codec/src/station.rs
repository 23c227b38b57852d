//! C10: station ids against an independent recognizer.

use crate::words::{nth_string, strings_upto};
use plusendi::{StationId, StationIdRef};
use report::*;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Optional digit, one or more letters, one or more digits, a letter, letters or digits; optionally a
/// hyphen and one or two letters or digits. Backtracking is explicit: try every split.
fn recognized(s: &[u8]) -> bool {
    let (call, ssid) = match s.iter().position(|&b| b == b'-') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    if let Some(ssid) = ssid {
        if !(1..=2).contains(&ssid.len()) || !ssid.iter().all(u8::is_ascii_alphanumeric) { return false; }
    }
    for lead in 0..=1 {
        if lead == 1 && !call.first().map_or(false, u8::is_ascii_digit) { continue; }
        for letters in 1..call.len() {
            for digits in 1..call.len() {
                let (a, b) = (lead + letters, lead + letters + digits);
                if b >= call.len() { continue; }
                if call[lead..a].iter().all(u8::is_ascii_alphabetic)
                    && call[a..b].iter().all(u8::is_ascii_digit)
                    && call[b].is_ascii_alphabetic()
                    && call[b..].iter().all(u8::is_ascii_alphanumeric) { return true; }
            }
        }
    }
    false
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

pub fn one(input: &[u8]) -> Result<(), String> {
    let Ok(s) = std::str::from_utf8(input) else { return Ok(()) };
    let want = recognized(input);
    let upper = s.to_ascii_uppercase();
    guarded(|| {
        let bad = |what: String| Err(format!("station id {}: {what}", show(input)));
        let owned = StationId::new(s);
        let borrowed = StationIdRef::from_str(s);
        let parsed = s.parse::<StationId>();
        for (how, accepted) in [("StationId::new", owned.is_ok()), ("StationIdRef::from_str", borrowed.is_ok()), ("parse", parsed.is_ok())] {
            if accepted != want { return bad(format!("{} by {how}", if accepted { "accepted" } else { "refused" })); }
        }
        let (Ok(owned), Ok(borrowed), Ok(parsed)) = (owned, borrowed, parsed) else { return Ok(()) };
        for (how, text) in [("StationId::new", owned.as_str()), ("StationIdRef::from_str", borrowed.as_str()), ("parse", parsed.as_str()), ("display", &owned.to_string())] {
            if text != upper { return bad(format!("reads as {text:?} by {how}")); }
        }
        let lower = match StationId::new(s.to_ascii_lowercase()) { Ok(x) => x, Err(_) => return bad("its lower-case spelling is refused".into()) };
        let again = match StationId::new(owned.as_str()) { Ok(x) => x, Err(_) => return bad("its normalized form is refused".into()) };
        for (how, other) in [("lower-case spelling", &lower), ("normalized form", &again), ("parsed form", &parsed)] {
            if *other != owned || hash(other) != hash(&owned) || other.as_str() != upper { return bad(format!("its {how} is a different id")); }
        }
        let r: &StationIdRef = owned.borrow();
        if r != &*borrowed || hash(r) != hash(&owned) { return bad("borrowed and owned forms differ".into()); }
        Ok(())
    }).unwrap_or_else(|e| Err(format!("station id {} {e}", show(input))))
}

pub fn c10(check: &Check) {
    let run = |label: &str, n: usize, gen: &(dyn Fn(usize) -> Vec<u8> + Sync)| check.enumerate(label, n, |i, probe| {
        let s = gen(i);
        probe.busy(&s);
        one(&s).map_err(|e| Violation { what: e, size: s.len(), replay: map([("case", "station".into()), ("input", hex(&s).into())]) })?;
        Ok(1)
    });
    let alphabet = *b"Aa1-\r ";
    let len = check.pick(7, 9);
    run(&format!("all texts up to {len} over {} characters", alphabet.len()), strings_upto(alphabet.len(), len), &|i| nth_string(&alphabet, i));
    let alphabet = *b"Zz90-\n/\t\0";
    let len = check.pick(5, 7);
    run(&format!("all texts up to {len} over {} other characters", alphabet.len()), strings_upto(alphabet.len(), len), &|i| nth_string(&alphabet, i));
    let alphabet = *b"a1";
    let len = check.pick(14, 18);
    run(&format!("all texts up to {len} over a letter and a digit"), strings_upto(2, len), &|i| nth_string(&alphabet, i));
    let goods = ["W1AW", "KC1GSL", "9a1a", "W1AW-1", "w1aw-15", "K1A-T", "3DA0RS", "VK100ARDF", "w1aw-zZ"];
    run("every byte in every place of several callsigns, replaced and inserted", goods.len() * 12 * 512, &|i| {
        let mut s = goods[i / 512 / 12].as_bytes().to_vec();
        let at = (i / 512 % 12).min(s.len());
        let b = (i / 2 % 256) as u8;
        if i % 2 == 0 && at < s.len() { s[at] = b } else { s.insert(at, b) }
        s
    });
    let odd = ["\u{e9}", "\u{ff21}", "\u{661}", "\u{212a}", "\u{17f}", "\u{131}", "\u{7f}", "\r\n", " ", "\u{2010}1", "-", "--1", "-1-1", "-123", "-1a", "-1!", " via W1AW", "\rDISCONNECT"];
    run("callsigns with odd text before, inside and after", goods.len() * odd.len() * 12, &|i| {
        let mut s = goods[i / 12 / odd.len()].to_string();
        let at = (i % 12).min(s.len());
        s.insert_str(at, odd[i / 12 % odd.len()]);
        s.into_bytes()
    });
    run("long callsigns", 4 * 300, &|i| {
        let n = i / 4;
        match i % 4 { 0 => format!("{}1A", "A".repeat(n)), 1 => format!("A{}A", "1".repeat(n)), 2 => format!("A1{}", "b2".repeat(n)), _ => format!("A1A{}", "-".repeat(n)) }.into_bytes()
    });
    run("every unicode character alone and in a callsign", 0x11_0000 * 2, &|i| {
        let Some(c) = char::from_u32(i as u32 / 2) else { return vec![] };
        if i % 2 == 0 { format!("W1A{c}") } else { format!("W{c}A") }.into_bytes()
    });
    check.sample("\"w1aw-1\" -> W1AW-1; \"W1AW\\rDISCONNECT\" refused");
}
