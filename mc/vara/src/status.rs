//! C13: the status a user reads mirrors what the modem has reported.

use crate::commands::run;
use crate::kit::*;
use mcsched::explore::Scenario;
use mcsched::net::Cuts;
use mcsched::*;
use plusendi::modem::vara::*;
use plusendi::StationId;
use report::Check;
use std::collections::BTreeSet;
use std::time::Instant;

/// The calls whose registration the observer asks about.
pub const WATCHED: [&str; 4] = ["KC1GSL", "W1AW-5", "N0CALL-10", "A1B2C3D"];

/// What the modem has reported, by the book.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Mirror {
    buffer: usize,
    busy: bool,
    transmit: bool,
    calls: BTreeSet<String>,
    beats: usize,
}

/// A line of the modem's vocabulary.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Line { Ok, Wrong, Beat, Buffer(usize), Busy(bool), Ptt(bool), Registered(String), Connected, Disconnected, Pending, Cancel }

/// A callsign as reported by the modem: 3 to 7 capitals and digits, and perhaps an SSID.
fn report_call(s: &str) -> bool {
    let ok = |s: &str, lo, hi| (lo..=hi).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit());
    match s.split_once('-') { None => ok(s, 3, 7), Some((c, ssid)) => ok(c, 3, 7) && ok(ssid, 1, 2) }
}

/// An independent reader of the modem's lines.
pub fn read_line(s: &str) -> Option<Line> {
    Some(match s {
        "OK" => Line::Ok,
        "WRONG" => Line::Wrong,
        "IAMALIVE" => Line::Beat,
        "BUSY ON" => Line::Busy(true),
        "BUSY OFF" => Line::Busy(false),
        "PTT ON" => Line::Ptt(true),
        "PTT OFF" => Line::Ptt(false),
        "DISCONNECTED" => Line::Disconnected,
        "PENDING" => Line::Pending,
        "CANCELPENDING" => Line::Cancel,
        _ => {
            if let Some(n) = s.strip_prefix("BUFFER ") {
                if n.is_empty() || !n.bytes().all(|b| b.is_ascii_digit()) { return None; }
                return n.parse().ok().map(Line::Buffer);
            }
            if let Some(c) = s.strip_prefix("REGISTERED ") { return report_call(c).then(|| Line::Registered(c.into())); }
            if let Some((a, b)) = s.strip_prefix("CONNECTED ").and_then(|r| r.split_once(' ')) { return (report_call(a) && report_call(b)).then_some(Line::Connected); }
            return None;
        }
    })
}

impl Mirror {
    fn take(&mut self, l: &Line) {
        match l {
            Line::Beat => self.beats += 1,
            Line::Buffer(n) => self.buffer = *n,
            Line::Busy(b) => self.busy = *b,
            Line::Ptt(b) => self.transmit = *b,
            Line::Registered(c) => { self.calls.insert(c.clone()); }
            _ => {}
        }
    }
}

/// What the user reads; beats are counted by the observer, one look after each piece.
fn look(t: &VaraTnc, beats: usize, rig: &tokio::sync::watch::Receiver<TransceiverCommand>, calls: &[StationId]) -> Mirror {
    Mirror {
        buffer: t.buffer(),
        busy: t.busy_state() == BusyState::Busy,
        transmit: *rig.borrow() == TransceiverCommand::Transmit,
        calls: calls.iter().filter(|c| t.local_registration(c) == Registration::Registered).map(|c| c.to_string()).collect(),
        beats,
    }
}

/// The modem sends `pieces`; after each, once all is quiet, the user looks.
pub fn mirrored(pieces: Vec<Vec<u8>>, watched: Vec<String>, cuts: Cuts) -> Scenario<'static> {
    let text: Vec<u8> = pieces.concat();
    let lines: Vec<String> = {
        let mut l: Vec<String> = String::from_utf8_lossy(&text).split('\r').map(String::from).collect();
        l.pop();
        l
    };
    let known: Vec<Option<Line>> = lines.iter().map(|l| read_line(l)).collect();
    let bad = known.iter().position(Option::is_none);
    let name = format!("status {:?}", pieces.iter().map(|p| String::from_utf8_lossy(p).replace('\r', "|")).collect::<Vec<_>>());
    let ends: Vec<usize> = pieces.iter().scan(0, |a, p| { *a += p.len(); Some(*a) }).collect();
    let w2 = watched.clone();
    Scenario {
        name,
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(cuts, Cuts::Never, false);
            let pieces = pieces.clone();
            let calls: Vec<StationId> = watched.iter().map(|c| id(c)).collect();
            world("modem and observer", async move {
                let t = tnc().await;
                let rig = t.subscribe_rig_command();
                let mut last: Instant = t.last_heartbeat();
                let mut beats = 0;
                settle().await;
                for p in pieces {
                    let c = mcsched::net::accepted(control(), 0).await;
                    mcsched::net::send(c, &p);
                    settle().await;
                    let now = t.last_heartbeat();
                    if now != last { beats += 1; last = now; }
                    let m = look(&t, beats, &rig, &calls);
                    note(format!("look: {m:?}"));
                    if t.remote_registration() != Registration::Unregistered { note("look: remote registration reported"); }
                }
            });
        }),
        judge: Box::new(move |e| {
            let seen = notes(e, "look: ");
            if seen.len() != ends.len() { return Err(format!("{} looks instead of {}: {seen:?}", seen.len(), ends.len())); }
            for (k, got) in seen.iter().enumerate() {
                // Complete lines up to here.
                let n = text[..ends[k]].iter().filter(|b| **b == b'\r').count();
                let mut m = Mirror::default();
                let before = if k == 0 { 0 } else { text[..ends[k - 1]].iter().filter(|b| **b == b'\r').count() };
                let _ = before;
                let mut fits = false;
                let upto = bad.map_or(n, |b| b.min(n));
                let mut beat_looks = 0;
                let mut pos = 0;
                let mut looked = 0;
                let _ = (&mut pos, &mut looked);
                for l in known[..upto].iter() { m.take(l.as_ref().unwrap()); }
                // One look can tell only whether there were beats, not how many.
                let mut from = 0;
                for j in 0..=k {
                    let to = text[..ends[j]].iter().filter(|b| **b == b'\r').count().min(upto);
                    if known[from.min(to)..to].iter().any(|l| *l == Some(Line::Beat)) { beat_looks += 1; }
                    from = from.max(to);
                }
                m.beats = beat_looks;
                m.calls.retain(|c| w2.contains(c));
                if *got == format!("{m:?}") { fits = true; }
                // Past an unknown line, any prefix of what followed it may have been taken in as well.
                if !fits && bad.is_some_and(|b| b < n) {
                    let mut x = m.clone();
                    for l in known[bad.unwrap()..n].iter().flatten() {
                        x.take(l);
                        x.calls.retain(|c| w2.contains(c));
                        for beats in beat_looks..=k + 1 {
                            let mut y = x.clone();
                            y.beats = beats;
                            if *got == format!("{y:?}") { fits = true; }
                        }
                    }
                }
                if !fits { return Err(format!("after {} the user reads {got}, but the modem has reported {m:?}", report::show(&text[..ends[k]]))); }
            }
            Ok(())
        }),
    }
}

pub const ALPHABET: [&str; 16] = [
    "IAMALIVE", "BUFFER 0", "BUFFER 7", "BUFFER 12345", "BUSY ON", "BUSY OFF", "PTT ON", "PTT OFF", "REGISTERED KC1GSL", "REGISTERED W1AW-5",
    "CONNECTED KC1GSL W1AW", "DISCONNECTED", "PENDING", "CANCELPENDING", "OK", "WRONG",
];

pub fn watched() -> Vec<String> { WATCHED.iter().map(|s| s.to_string()).collect() }
pub fn joined(lines: &[&str]) -> Vec<u8> { lines.iter().flat_map(|l| l.bytes().chain([b'\r'])).collect() }

/// All ways of cutting `text` into at most `parts` pieces.
pub fn cuts(text: &[u8], parts: usize) -> Vec<Vec<Vec<u8>>> {
    fn go(text: &[u8], parts: usize, out: &mut Vec<Vec<Vec<u8>>>, head: Vec<Vec<u8>>) {
        let mut whole = head.clone();
        whole.push(text.to_vec());
        out.push(whole);
        if parts > 1 {
            for k in 1..text.len() {
                let mut h = head.clone();
                h.push(text[..k].to_vec());
                go(&text[k..], parts - 1, out, h);
            }
        }
    }
    let mut out = vec![];
    go(text, parts, &mut out, vec![]);
    out
}

/// A command waits for its answer while a line outside the vocabulary arrives.
pub fn unanswered(line: String, cut: usize) -> Scenario<'static> {
    let l2 = line.clone();
    Scenario {
        name: format!("a command waits while the modem says {line:?}, cut at {cut}"),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Never, false);
            let line = line.clone() + "\r";
            let (a, b) = line.as_bytes().split_at(cut);
            world("modem", modem(vec![Act::Take, say("BUFFER 7|BUSY ON|"), Act::Settle, Act::Say(a.to_vec()), Act::Settle, Act::Say(b.to_vec())]));
            caller("caller", async move {
                let t = tnc().await;
                let rig = t.subscribe_rig_command();
                let beat = t.last_heartbeat();
                let r = t.send_callsign(id("K1A")).await;
                settle().await;
                let m = look(&t, (beat != t.last_heartbeat()) as usize, &rig, &WATCHED.map(id));
                note(format!("caller: {} {m:?}", outcome(&r)));
            });
        }),
        judge: Box::new(move |e| {
            let want = Mirror { buffer: 7, busy: true, ..Mirror::default() };
            for got in notes(e, "caller: ") {
                if got != format!("error {want:?}") { return Err(format!("{l2:?} is not in the modem's vocabulary, but after it: {got}")); }
            }
            Ok(())
        }),
    }
}

pub fn c13(check: &Check) {
    // All histories of reports, in one piece and line by line.
    let depth = check.pick(3, 4);
    let mut all = vec![];
    for n in 1..=depth {
        for i in 0..ALPHABET.len().pow(n as u32) {
            let mut k = i;
            let lines: Vec<&str> = (0..n).map(|_| { let l = ALPHABET[k % ALPHABET.len()]; k /= ALPHABET.len(); l }).collect();
            all.push(mirrored(vec![joined(&lines)], watched(), Cuts::Never));
            if n <= 3 { all.push(mirrored(lines.iter().map(|l| joined(&[l])).collect(), watched(), Cuts::Never)); }
        }
    }
    run(check, &format!("all histories of up to {depth} reports"), 0, all);
    // All segmentations of all pairs.
    let mut all = vec![];
    for a in ALPHABET { for b in ALPHABET {
        for c in cuts(&joined(&[a, b]), 3) { all.push(mirrored(c, watched(), Cuts::Never)); }
    } }
    run(check, "all pairs of reports in up to three pieces", 0, all);
    let mut all = vec![];
    for l in ALPHABET.iter().chain(&["BUFFER 18446744073709551615", "CONNECTED A1B2C3D-99 KC1GSL-1"]) {
        for c in cuts(&joined(&[l]), check.pick(4, 5)) { if c.len() > 3 { all.push(mirrored(c, watched(), Cuts::Never)); } }
    }
    run(check, "every report in four or more pieces", 0, all);
    // Long streams, read in every way.
    let mut all = vec![];
    let long = joined(&["BUFFER 100", "PTT ON", "REGISTERED KC1GSL", "IAMALIVE", "BUSY ON", "OK", "CONNECTED KC1GSL W1AW-5", "BUFFER 0", "REGISTERED N0CALL-10", "PTT OFF", "DISCONNECTED", "REGISTERED A1B2C3D", "BUSY OFF", "PENDING", "IAMALIVE", "BUFFER 65536"]);
    all.push(mirrored(vec![long.clone()], watched(), Cuts::All));
    all.push(mirrored(vec![joined(&["REGISTERED W1AW-5", "REGISTERED KC1GSL", "PTT ON", "PTT OFF", "PTT ON"]), joined(&["BUFFER 3", "BUFFER 21", "BUFFER 1"])], watched(), Cuts::All));
    run(check, "long streams, every way of cutting the reads", check.pick(2, 3), all);
    let mut all = vec![];
    for k in 1..long.len() { for w in 1..check.pick(3, 12) {
        let (a, b) = (k, (k + w * 7).min(long.len()));
        let mut p = vec![long[..a].to_vec(), long[a..b].to_vec(), long[b..].to_vec()];
        p.retain(|x| !x.is_empty());
        all.push(mirrored(p, watched(), Cuts::Never));
    } }
    all.push(mirrored(long.iter().map(|b| vec![*b]).collect(), watched(), Cuts::Never));
    run(check, "a long stream in pieces", 0, all);
    // More than any fixed buffer: hundreds of lines at once, and far lines behind them.
    let mut all = vec![];
    for n in [10usize, 40, 100, 300, 1000] {
        let mut t: Vec<u8> = vec![];
        for k in 0..n { t.extend(joined(&[ALPHABET[k % 10]])); }
        t.extend(joined(&["BUFFER 4711", "PTT ON", "REGISTERED N0CALL-10"]));
        for tail in 0..8 { let k = t.len() - tail; all.push(mirrored(vec![t[..k].to_vec(), t[k..].to_vec()].into_iter().filter(|p| !p.is_empty()).collect(), watched(), Cuts::Some)); }
    }
    run(check, "bursts of up to a thousand reports", check.pick(0, 1), all);
    // Values.
    let mut all = vec![];
    let mut levels: Vec<String> = (0..check.pick(1200, 70000)).map(|n: usize| n.to_string()).collect();
    for p in 0..20u32 { let n = 10u128.pow(p); for d in [n.saturating_sub(1), n, n + 1] { levels.push(d.to_string()); } }
    for p in 7..64u32 { for d in [(1u128 << p) - 1, 1u128 << p, (1u128 << p) + 1] { levels.push(d.to_string()); } }
    levels.extend(["18446744073709551615", "18446744073709551616", "99999999999999999999", "00", "007", "0000000000000000000000012"].map(String::from));
    for l in levels { all.push(mirrored(vec![joined(&[&format!("BUFFER {l}")])], watched(), Cuts::Never)); }
    run(check, "buffer levels", 0, all);
    let mut all = vec![];
    let mut calls = BTreeSet::new();
    for len in 3..=7 { for fill in ["A", "Z", "K1", "9Z", "ABCDEFG", "1A2B3C4"] {
        let body: String = fill.chars().cycle().take(len).collect();
        for ssid in ["", "-1", "-9", "-15", "-T", "-ZZ", "-0", "-A9"] { calls.insert(format!("{body}{ssid}")); }
    } }
    for c in &calls {
        all.push(mirrored(vec![joined(&[&format!("REGISTERED {c}"), "BUFFER 5"])], watched(), Cuts::Never));
        for d in ["KC1GSL", "W1AW-15", c] { all.push(mirrored(vec![joined(&[&format!("CONNECTED {c} {d}"), "BUFFER 5"])], watched(), Cuts::Never)); }
    }
    for c in calls.iter().filter(|c| c.parse::<StationId>().is_ok()) {
        for d in calls.iter().filter(|c| c.parse::<StationId>().is_ok()) {
            all.push(mirrored(vec![joined(&[&format!("REGISTERED {c}")])], vec![c.clone(), d.clone()], Cuts::Never));
        }
    }
    run(check, "callsigns in reports", 0, all);
    // Lines outside the vocabulary: every single edit of every line.
    let mut strange = BTreeSet::new();
    let letters: Vec<char> = "ON F0-1".chars().chain(check.pick("", "KAXWR|\n\u{7f}").chars()).collect();
    for l in ALPHABET.iter().chain(&["BUFFER 99", "CONNECTED W1AW-5 N0CALL-10"]) {
        let c: Vec<char> = l.chars().collect();
        for i in 0..=c.len() {
            if i < c.len() {
                let mut x = c.clone(); x.remove(i); strange.insert(x.iter().collect::<String>());
                let mut x = c.clone(); x[i] = x[i].to_ascii_lowercase(); strange.insert(x.iter().collect());
                if i + 1 < c.len() { let mut x = c.clone(); x.swap(i, i + 1); strange.insert(x.iter().collect()); }
            }
            for a in &letters {
                let mut x = c.clone(); x.insert(i, *a); strange.insert(x.iter().collect());
                if i < c.len() { let mut x = c.clone(); x[i] = *a; strange.insert(x.iter().collect()); }
            }
            strange.insert(c[..i].iter().collect());
        }
        for m in ALPHABET { strange.insert(format!("{l}{m}")); strange.insert(format!("{l} {m}")); strange.insert(format!("{l}\n{m}")); }
    }
    for w in ["REGISTERED", "CONNECTED", "UNREGISTERED KC1GSL", "VERSION 4.7", "LINK REGISTERED", "SN 12", "BITRATE (5) 100 bps", "MISSING SOUNDCARD", "\u{e9}", "\u{1F4FB}", "OKOK", "OK OK", "NOT OK", "BUFFER -1", "BUFFER +1", "BUFFER 0x10", "BUFFER 1e3", "BUFFER 1_000", "PTT ONN", "PTT", "BUSY", "\0"] { strange.insert(w.into()); }
    strange.retain(|s| read_line(s).is_none() && !s.is_empty() && !s.contains('\r'));
    check.note("lines_outside_vocabulary", strange.len());
    let mut all = vec![];
    for s in &strange { all.push(unanswered(s.clone(), 0)); }
    run(check, "a command waits while a line outside the vocabulary comes", 0, all);
    let mut all = vec![];
    for s in &strange {
        all.push(mirrored(vec![joined(&["BUFFER 5", "PTT ON", s])], watched(), Cuts::Never));
        all.push(mirrored(vec![joined(&["BUFFER 5"]), joined(&[s, "BUFFER 9", "PTT ON", "REGISTERED KC1GSL"])], watched(), Cuts::Never));
    }
    run(check, "lines outside the vocabulary between reports", 0, all);
    // Long lines outside the vocabulary whose last piece alone would be a report or an answer.
    let mut all = vec![];
    for n in [8usize, 60, 100, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 1500, 2048, 4095, 4096, 5000, 9000, 20000, 70000] { for fill in ["X", "BUFFER 1 ", "9"] {
        let junk: String = fill.chars().cycle().take(n).collect();
        for l in ["OK", "WRONG", "BUFFER 9", "PTT ON", "IAMALIVE", "REGISTERED KC1GSL"] {
            let line = format!("{junk}{l}");
            for cut in [n, n / 2] {
                all.push(unanswered(line.clone(), cut));
                let (a, b) = line.split_at(cut);
                all.push(mirrored(vec![joined(&["BUFFER 5", "BUSY ON"]), a.into(), joined(&[b])], watched(), Cuts::Never));
            }
            all.push(mirrored(vec![joined(&["BUFFER 5", "BUSY ON", &line])], watched(), Cuts::Some));
        }
    } }
    run(check, "long lines outside the vocabulary", check.pick(0, 1), all);
    // Many callsigns: none is forgotten.
    let mut all = vec![];
    for n in [10usize, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300, 1000, 3000] {
        let call = |k: usize| format!("K{}{}{}{}", k / 676 % 10, (b'A' + (k / 26 % 26) as u8) as char, (b'A' + (k % 26) as u8) as char, ["", "-1", "-15", "-T"][k % 4]);
        let lines: Vec<String> = (0..n).map(|k| format!("REGISTERED {}", call(k))).collect();
        let lines: Vec<&str> = lines.iter().map(String::as_str).collect();
        let mut asked: Vec<String> = [0, 1, n / 2, n - 2, n - 1, n, n + 1].map(call).to_vec();
        asked.push("KC1GSL".into());
        all.push(mirrored(vec![joined(&lines)], asked.clone(), Cuts::Never));
        all.push(mirrored(vec![joined(&lines), joined(&lines[..n / 2]), joined(&["BUFFER 2"])], asked.clone(), Cuts::Never));
        if n <= 300 { all.push(mirrored(lines.iter().map(|l| joined(&[l])).collect(), asked, Cuts::Never)); }
    }
    run(check, "up to 3000 callsigns", 0, all);
}
