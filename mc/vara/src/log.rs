//! C22: logging never changes behaviour. Everything is done twice, with logging at its most
//! verbose and with logging off, and must come out the same.

use crate::commands::run;
use crate::kit::*;
use crate::user::Do;
use crate::{commands, link, rig, session, status};
use mcsched::explore::{taken, Scenario};
use mcsched::net::Cuts;
use mcsched::*;
use plusendi::verif::{lzhuf, transfer};
use report::{map, show, Check, Violation};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event as LogEvent, Metadata, Subscriber};

thread_local! {
    static VERBOSE: Cell<bool> = const { Cell::new(false) };
}

static LINES: AtomicU64 = AtomicU64::new(0);

/// Formats everything it is given, as the most verbose log would.
struct Everything;
struct Spell(String);
impl Visit for Spell {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, " {}={v:?}", f.name());
    }
    fn record_error(&mut self, f: &Field, v: &(dyn std::error::Error + 'static)) {
        use std::fmt::Write;
        let _ = write!(self.0, " {}={v} {v:?}", f.name());
        let mut source = v.source();
        while let Some(s) = source { let _ = write!(self.0, " {s}"); source = s.source(); }
    }
}
fn spell(f: impl FnOnce(&mut Spell)) {
    let mut s = Spell(String::new());
    f(&mut s);
    if !s.0.is_empty() { LINES.fetch_add(1, Ordering::Relaxed); }
}
impl Subscriber for Everything {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest { Interest::sometimes() }
    fn enabled(&self, _: &Metadata<'_>) -> bool { VERBOSE.with(|v| v.get()) }
    fn new_span(&self, a: &Attributes<'_>) -> Id { spell(|s| a.record(s)); Id::from_u64(1) }
    fn record(&self, _: &Id, r: &Record<'_>) { spell(|s| r.record(s)); }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &LogEvent<'_>) { spell(|s| e.record(s)); }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

/// The same execution with logging off must be the same execution.
fn logged(s: Scenario<'static>) -> Scenario<'static> {
    let s = Arc::new(s);
    let t = s.clone();
    Scenario {
        name: s.name.clone(),
        config: || Config { lenient: true, ..Config::default() },
        setup: Box::new(move || { VERBOSE.with(|v| v.set(true)); (s.setup)() }),
        judge: Box::new(move |e| {
            let choices = taken(&e.trace);
            VERBOSE.with(|v| v.set(false));
            let quiet = report::guarded(|| execute(Config { lenient: true, ..Config::default() }, &choices, || (t.setup)()))?;
            VERBOSE.with(|v| v.set(true));
            for (a, b) in e.log.iter().zip(&quiet.log) {
                if a != b { return Err(format!("with logging: {a:?}; without: {b:?}")); }
            }
            for (a, b) in e.tasks.iter().zip(&quiet.tasks) {
                if a.fate != b.fate { return Err(format!("task '{}' with logging: {:?} {}; without: {:?} {}", a.name, a.fate, a.panic.clone().unwrap_or_default(), b.fate, b.panic.clone().unwrap_or_default())); }
            }
            if e.log != quiet.log || e.tasks.len() != quiet.tasks.len() || e.spinning != quiet.spinning { return Err("the execution goes on differently without logging".into()); }
            if e.trace != quiet.trace || quiet.diverged.is_some() { return Err("with logging, other decisions come up".into()); }
            Ok(())
        }),
    }
}
fn all_logged(v: Vec<Scenario<'static>>) -> Vec<Scenario<'static>> { v.into_iter().map(logged).collect() }

// ---- transfers -------------------------------------------------------------------------------

fn crc16(data: &[u8]) -> u16 {
    data.iter().fold(0u16, |c, b| (0..8).fold(c ^ (*b as u16) << 8, |c, _| if c & 0x8000 != 0 { c << 1 ^ 0x1021 } else { c << 1 }))
}
fn framed(title: &[u8], text: &[u8], block: usize, crc_off: u16, sum_off: u8) -> Vec<u8> {
    let packed = lzhuf::compress(text);
    let mut body = (text.len() as u32).to_le_bytes().to_vec();
    body.extend(&packed);
    let crc = crc16(&body).wrapping_add(crc_off);
    let mut all = crc.to_le_bytes().to_vec();
    all.extend(&body);
    let mut out = vec![1, (title.len() + 3) as u8];
    out.extend(title);
    out.extend([0, b'0', 0]);
    for b in all.chunks(block) { out.push(2); out.push(b.len() as u8); out.extend(b); }
    out.push(4);
    out.push(all.iter().fold(0u8, |s, b| s.wrapping_sub(*b)).wrapping_add(sum_off));
    out
}

fn both_ways<T: PartialEq + std::fmt::Debug>(f: impl Fn() -> T) -> Result<(), String> {
    VERBOSE.with(|v| v.set(true));
    let a = report::guarded(&f);
    VERBOSE.with(|v| v.set(false));
    let b = report::guarded(&f);
    let same = match (&a, &b) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false };
    if same { Ok(()) } else { Err(format!("with logging: {a:.200?}; without: {b:.200?}")) }
}

fn transfers(check: &Check) {
    let mut cases: Vec<Vec<u8>> = vec![];
    let texts: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), b"hello hello hello\r\n".to_vec(), vec![0xff, 0xfe, 0x80, 0xc3], (0..200u8).collect(), "\u{e9}\u{1f4fb}".repeat(9).into_bytes()];
    for t in &texts { for block in [6, 7, 50, 255] { cases.push(framed(b"Title", t, block, 0, 0)); } }
    let plain = cases.clone();
    // Every wrong checksum and many wrong CRCs, over texts that reach many sums.
    for n in 0..check.pick(120, 1000u32) { for off in 0..=255u8 { cases.push(framed(b"T", &n.to_le_bytes()[..3], 100, 0, off)); } }
    for t in &texts { for off in 0..check.pick(300, 65535u16) { cases.push(framed(b"T", t, 100, off, 0)); } }
    for p in &plain {
        for k in 0..=p.len() { cases.push(p[..k].to_vec()); }
        for k in 0..p.len() {
            let mut few = vec![0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xc3, 0xff, p[k] ^ 1, p[k] ^ 0x80, b'0'];
            if check.thorough() { few = (0..=255).collect(); }
            for b in few { let mut x = p.clone(); x[k] = b; cases.push(x); }
        }
    }
    // Checksum-preserving pairs of changes reach the CRC check and the decompressor.
    for p in &plain { for k in 8..p.len().saturating_sub(4) { for d in [1u8, 0x10, 0x80, 0xff] {
        let mut x = p.clone();
        x[k] = x[k].wrapping_add(d);
        x[k + 1] = x[k + 1].wrapping_sub(d);
        cases.push(x);
    } } }
    for title in [&b""[..], b"\xff\xfe", b"a\0b", "\u{e9}".as_bytes(), &[b'T'; 80], &[0x80; 85]] { for t in &texts { cases.push(framed(title, t, 60, 0, 0)); cases.push(framed(title, t, 60, 1, 0)); cases.push(framed(title, t, 60, 0, 0x80)); } }
    check.sample(show(&cases[0]));
    let one = |label: &str, cases: &[Vec<u8>], f: &(dyn Fn(&[u8]) -> Result<(), String> + Sync)| {
        check.enumerate(label, cases.len(), |i, probe| {
            probe.busy(&cases[i]);
            f(&cases[i]).map(|_| 2).map_err(|what| Violation { what: format!("{}: {what}", show(&cases[i])), size: cases[i].len(), replay: map([("bytes", show(&cases[i]).into())]) })
        });
    };
    one("transfers, whole and corrupted", &cases, &|d| both_ways(|| transfer::transfer(d)));
    // The compressor's own spans.
    let mut bodies: Vec<Vec<u8>> = texts.clone();
    let alphabet = [0u8, b'a', 0x80, 0xff];
    for n in 0..=check.pick(5, 7) { for i in 0..alphabet.len().pow(n) { bodies.push((0..n).map(|k| alphabet[i / alphabet.len().pow(k) % alphabet.len()]).collect()); } }
    for n in [61usize, 300, 2100, 5000] { bodies.push((0..n).map(|k| (k * k / 7) as u8).collect()); bodies.push(vec![b'z'; n]); }
    one("compressing", &bodies, &|d| both_ways(|| lzhuf::compress(d)));
    let mut packed: Vec<Vec<u8>> = bodies.iter().map(|b| lzhuf::compress(b)).collect();
    packed.extend(bodies.iter().cloned());
    one("decompressing", &packed, &|d| both_ways(|| [0usize, 1, 7, 100].map(|n| lzhuf::decompress(d, n))));
}

// ---- links -----------------------------------------------------------------------------------

fn raw_lines() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"\xff".to_vec(), b"\xc3".to_vec(), b"\xc3\xa9".to_vec(), b"OK\xff".to_vec(), b"BUFFER \xff".to_vec(), b"BUFFER 12\xc3".to_vec(), b"CONNECTED \xff\xff\xff \xff\xff\xff".to_vec(),
        b"REGISTERED \xc3\xa9\xc3\xa9".to_vec(), b"REGISTERED K1\xff".to_vec(), b"\xf0\x9f\x93\xbb".to_vec(), b"\xf0\x9f".to_vec(), b"\0".to_vec(), b"\x80\x80\x80".to_vec(), b"PTT \xff".to_vec(), b"\xed\xa0\x80".to_vec(), vec![0xff; 300],
        b"PTT ON\n".to_vec(), b"OK\n".to_vec(), b"\nOK".to_vec(), b"CONNECTED W1AW".to_vec(), b"CONNECTED W1AW ".to_vec(), b"BUFFER ".to_vec(), b"BUFFER 99999999999999999999".to_vec(), b"VERSION 1".to_vec(), b"{}".to_vec(), b"{0} %s".to_vec(),
    ];
    for l in status::ALPHABET { v.push(l.as_bytes().to_vec()); }
    v
}

/// A command waits; lines arrive, cut anywhere; the answer may follow.
fn stream(bytes: Vec<u8>, at: usize) -> Scenario<'static> {
    let script = vec![Act::Take, Act::Say(bytes[..at].to_vec()), Act::Settle, Act::Say(bytes[at..].to_vec()), Act::Settle, say("OK|"), Act::Take, say("WRONG|")];
    Scenario {
        name: format!("{} | {}", show(&bytes[..at]), show(&bytes[at..])),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Some, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("user", crate::user::user(vec![Do::Cmd(commands::Ask::Calls), Do::Cmd(commands::Ask::Bw500)]));
        }),
        judge: Box::new(|_| Ok(())),
    }
}

pub fn c22(check: &Check) {
    tracing::subscriber::set_global_default(Everything).expect("the only subscriber");
    check.assume("The log is formatted by the harness's own subscriber, which spells out every field of every span and event; the program as a whole runs with its own subscriber.");
    transfers(check);
    let mut all = vec![];
    for l in raw_lines() {
        let line = [&l[..], b"\r"].concat();
        for at in 0..=line.len() { if at < 12 || at % 29 == 0 { all.push(stream(line.clone(), at)); } }
        for m in raw_lines() {
            let two = [&l[..], b"\r", &m[..], b"\r"].concat();
            for at in [1, l.len(), l.len() + 1, l.len() + 2] { all.push(stream(two.clone(), at.min(two.len()))); }
        }
    }
    run(check, "streams of a modem, cut anywhere", check.pick(1, 2), all_logged(all));
    let mut all = vec![];
    for a in status::ALPHABET { for b in status::ALPHABET { for c in status::cuts(&status::joined(&[a, b]), 2) { all.push(status::mirrored(c, status::watched(), Cuts::Never)); } } }
    run(check, "reported status", 0, all_logged(all));
    let mut all = vec![];
    for b in &link::bases() { for at in 0..=b.script.len() { for f in link::faults() { for q in [false, true] { all.push(link::lost(b, at, &f, q)); } } } }
    run(check, "lost links", check.pick(0, 1), all_logged(all));
    let mut all = vec![];
    for first in session::rounds_of(&session::attempts(), &session::ENDINGS, &[0, 2], &[false, true]) {
        all.push(session::series(crate::history::Focus::All, vec![first.clone()], false, Cuts::Some));
        for second in session::rounds_of(&session::attempts()[..2], &session::ENDINGS[..2], &[0], &[false]) { all.push(session::series(crate::history::Focus::All, vec![first.clone(), second], true, Cuts::Never)); }
    }
    run(check, "sessions", check.pick(1, 2), all_logged(all));
    let mut all = vec![];
    for n in [3usize, 40] {
        let bytes: Vec<u8> = (0..n).map(|k| (k * 37 + 128) as u8).collect();
        let acts = vec![Act::Data(bytes[..n / 2].to_vec()), Act::Settle, Act::Data(bytes[n / 2..].to_vec()), Act::Await("up"), say("DISCONNECTED|"), Act::Settle, Act::Raise("left")];
        all.push(session::exchange("bytes".into(), acts.clone(), vec![Do::ReadAll(3), Do::Await("left"), Do::Write(bytes.clone()), Do::Flush], None, (Cuts::Some, Cuts::Some, false), true));
        all.push(session::exchange("bytes".into(), acts, vec![Do::Both(vec![Do::ReadAll(3)], vec![Do::Write(bytes), Do::Await("left"), Do::Shut])], None, (Cuts::Some, Cuts::Some, true), true));
    }
    run(check, "bytes of sessions", check.pick(1, 2), all_logged(all));
    let mut all = vec![];
    for style in commands::STYLES { for k in 0..4 { all.push(commands::own_answers(vec![vec!["K1A"], vec!["K2A"]], vec![k & 1 == 1, k & 2 == 2], style, None, Cuts::Some)); } }
    run(check, "answers", check.pick(1, 2), all_logged(all));
    // What a rig says.
    let mut all = vec![];
    let mut texts: Vec<Vec<u8>> = raw_lines();
    texts.push(b";;;".to_vec());
    for t in &texts { for at in 0..=t.len() {
        if at > 12 && at % 29 != 0 { continue; }
        for end in [None, Some(rig::Rig::HangsUp), Some(rig::Rig::Fails)] {
            let mut acts = vec![rig::Rig::Says([&t[..at], b";"].concat()), rig::Rig::Settle, rig::Rig::Says([&t[at..], b";ID017;", t].concat())];
            acts.extend(end);
            all.push(rig::drive(rig::Plan { rig: acts, senders: vec![vec![true, false]], queue: 1, cuts: (Cuts::Some, Cuts::Some, false), cap: None, calm: at % 2 == 0, hold: None }));
        }
    } }
    run(check, "what a rig says", check.pick(1, 2), all_logged(all));
    check.note("log_records_formatted", LINES.load(Ordering::Relaxed));
}
