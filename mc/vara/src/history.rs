//! Every short history of one user with a modem that answers by itself.

use crate::commands::Ask;
use crate::kit::*;
use crate::user::*;
use mcsched::explore::Scenario;
use mcsched::net::{self as sim, Cuts};
use mcsched::*;
use std::collections::{HashSet, VecDeque};

/// One step of a history.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    /// A command that is waited for.
    Cmd,
    /// A command the modem refuses.
    Wrong,
    /// A command nobody waits for.
    Quit,
    /// A session, ended by the user or (seen by the user) by the remote end.
    Disconnect,
    Abort,
    Drop,
    Remote,
    /// An attempt that fails, a request that is refused.
    Down,
    Refused,
    /// A session with traffic in both directions, ended by the remote end.
    Talk,
}
pub const STEPS: [Step; 9] = [Step::Drop, Step::Cmd, Step::Wrong, Step::Quit, Step::Disconnect, Step::Abort, Step::Remote, Step::Down, Step::Refused];

/// What is judged.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Focus { Answers, Outcomes, Teardowns, All, Sessions }

/// When the modem speaks.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Manner { Prompt, Slow, Late }
pub const MANNERS: [Manner; 3] = [Manner::Prompt, Manner::Slow, Manner::Late];

const ASK: &str = "CONNECT KC1GSL W1AW";

/// What the remote station sends in the session of a step.
fn sent(i: usize) -> Vec<u8> { (0..i % 3 + 2).map(|k| (i * 8 + k) as u8).collect() }
const GIVEN: &[u8] = b"hi";

async fn automatic(mut steps: VecDeque<(usize, Step)>, stay: Vec<&'static str>, manner: Manner, chatty: bool) {
    let ctl = sim::accepted(control(), 0).await;
    let mut connected = false;
    loop {
        let line = match sim::recv_until(ctl, b'\r').await {
            Ok(line) => String::from_utf8_lossy(&line[..line.len() - 1]).into_owned(),
            Err(rest) => { note(format!("modem sees the control connection end, {} bytes left over", rest.len())); return; }
        };
        note(format!("modem takes {line}"));
        let mut words: Vec<&str> = match &*line {
            ASK => match steps.front().map(|s| s.1) {
                Some(Step::Down) => vec!["OK\r", "DISCONNECTED\r"],
                Some(Step::Refused) | None => vec!["WRONG\r"],
                Some(_) => { connected = true; vec!["OK\r", "CONNECTED KC1GSL W1AW\r"] }
            },
            "DISCONNECT" | "ABORT" if connected => { connected = false; vec!["OK\r", "DISCONNECTED\r"] }
            "DISCONNECT" | "ABORT" => vec!["WRONG\r"],
            "BW2300" => vec!["WRONG\r"],
            _ => vec!["OK\r"],
        };
        if manner == Manner::Late { settle().await; }
        if manner == Manner::Prompt { sim::send(ctl, words.concat().as_bytes()); words.clear(); }
        for (i, w) in words.iter().enumerate() {
            if i > 0 { settle().await; }
            sim::send(ctl, w.as_bytes());
        }
        if line == ASK {
            let step = steps.pop_front();
            if let (true, true, Some((i, _))) = (chatty, connected, step) { sim::send(sim::accepted(data(), 0).await, &sent(i)); }
            if let Some((i, Step::Remote | Step::Talk)) = step {
                flag_raised(stay[i]).await;
                sim::send(ctl, b"DISCONNECTED\r");
                connected = false;
            }
        }
    }
}

pub fn history(focus: Focus, steps: Vec<Step>, manner: Manner, drop_tnc: bool, reads: Cuts) -> Scenario<'static> {
    let chatty = focus == Focus::Sessions;
    let mut ops = vec![];
    let stay: Vec<&'static str> = (0..steps.len()).map(|i| nth("stay", i)).collect();
    for (i, s) in steps.iter().enumerate() {
        match s {
            Step::Cmd => ops.push(Do::Cmd(Ask::CompText)),
            Step::Wrong => ops.push(Do::Cmd(Ask::Bw2300)),
            Step::Quit => ops.push(Do::GiveUp(Ask::Call, 1)),
            Step::Disconnect => ops.extend([Do::Connect, Do::Disconnect]),
            Step::Abort => ops.extend([Do::Connect, Do::Abort]),
            Step::Drop | Step::Down | Step::Refused => ops.extend([Do::Connect, Do::Drop]),
            Step::Remote => ops.extend([Do::Connect, Do::Raise(stay[i]), Do::Read(4), Do::Drop]),
            Step::Talk => ops.extend([Do::Connect, Do::Write(GIVEN.to_vec()), Do::Flush, Do::Raise(stay[i]), Do::ReadAll(3), Do::Drop]),
        }
    }
    if drop_tnc { ops.push(Do::DropTnc); } else { ops.push(Do::Settle); }
    let calls: VecDeque<(usize, Step)> = steps.iter().copied().enumerate().filter(|s| !matches!(s.1, Step::Cmd | Step::Wrong | Step::Quit)).collect();
    let o2 = ops.clone();
    Scenario {
        name: format!("{steps:?} {manner:?}{}", if drop_tnc { ", handle dropped at once" } else { "" }),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(reads, Cuts::Never, false);
            world("modem", automatic(calls.clone(), stay.clone(), manner, chatty));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            finished(e, "user")?;
            let mut k = 0;
            for (n, s) in steps.iter().enumerate() {
                let got = result(e, k).unwrap_or("missing");
                let fits = match (focus, s) {
                    (Focus::Answers | Focus::All, Step::Cmd) => got == "ok",
                    (Focus::Answers | Focus::All, Step::Wrong) => got == "error",
                    (Focus::Answers | Focus::All, Step::Quit) => got != "error",
                    (Focus::Outcomes, Step::Cmd | Step::Wrong | Step::Quit) => true,
                    (Focus::Sessions, Step::Talk) => {
                        let of = |n: usize| result(e, k + n).unwrap_or("missing");
                        let want = sent(n);
                        if got == "ok" && (of(1), of(2), of(4)) != ("ok", "ok", &*format!("got {} end", report::hex(&want))) { return Err(format!("session of step {n}: write {}, flush {}, read {}; {} was sent in it", of(1), of(2), of(4), report::hex(&want))); }
                        got == "ok"
                    }
                    (Focus::Outcomes | Focus::All, Step::Down | Step::Refused) => got == "error",
                    (Focus::Outcomes | Focus::All, _) => got == "ok",
                    _ => true,
                };
                if !fits { return Err(format!("step {k} ({}) ends with {got}", o2[k].short())); }
                k += match s { Step::Cmd | Step::Wrong | Step::Quit => 1, Step::Remote => 4, Step::Talk => 6, _ => 2 };
            }
            if focus == Focus::Sessions {
                let (wire, given) = (written(e, dat(e)), GIVEN.repeat(steps.iter().filter(|s| **s == Step::Talk).count()));
                if wire != given { return Err(format!("{} was written, the data connection carries {}", report::hex(&given), report::hex(&wire))); }
            }
            if !matches!(focus, Focus::Teardowns | Focus::All) { return Ok(()); }
            all_finished(e)?;
            let bytes = written(e, ctl(e));
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let mut lines: Vec<&str> = text.split('\r').collect();
            if lines.pop() != Some("") || !explained(&steps, false, &lines, &mut Default::default()) { return Err(format!("the modem receives {}", report::show(&bytes))); }
            Ok(())
        }),
    }
}

/// Whether these lines are what the steps ask for: in order, except that the teardown of a dropped
/// session (`owed`) may come at any time before the next request.
fn explained(steps: &[Step], owed: bool, lines: &[&str], not: &mut HashSet<(usize, bool, usize)>) -> bool {
    let here = (steps.len(), owed, lines.len());
    if not.contains(&here) { return false; }
    if owed && lines.first() == Some(&"DISCONNECT") && explained(steps, false, &lines[1..], not) { return true; }
    let Some((step, rest)) = steps.split_first() else { return !owed && lines.is_empty() };
    let mut after = |want: &[&str], owed: bool| lines.strip_prefix(want).is_some_and(|l| explained(rest, owed, l, not));
    let fits = match step {
        Step::Cmd => after(&["COMPRESSION TEXT"], owed),
        Step::Wrong => after(&["BW2300"], owed),
        Step::Quit => after(&["MYCALL KC1GSL"], owed) || after(&[], owed),
        _ if owed => false,
        Step::Drop => after(&[ASK], true),
        Step::Disconnect => after(&[ASK, "DISCONNECT"], false),
        Step::Abort => after(&[ASK, "ABORT"], false),
        Step::Remote | Step::Talk | Step::Down | Step::Refused => after(&[ASK], false),
    };
    if !fits { not.insert(here); }
    fits
}

/// Long mixtures of steps.
pub fn long_histories(focus: Focus, shifts: usize) -> Vec<Scenario<'static>> {
    let mut all = vec![];
    for n in [10usize, 33, 100, 300] { for shift in 0..shifts { for m in MANNERS { for drop_tnc in [false, true] {
        let steps = (0..n).map(|i| STEPS[(i * i / 3 + i / 5 + shift) % STEPS.len()]).collect();
        all.push(history(focus, steps, m, drop_tnc, Cuts::Never));
    } } } }
    all
}

/// All histories of exactly this length.
pub fn histories(focus: Focus, len: usize, manners: &[Manner], reads: Cuts) -> Vec<Scenario<'static>> {
    let mut all = vec![];
    for i in 0..STEPS.len().pow(len as u32) {
        let steps: Vec<Step> = (0..len).map(|k| STEPS[i / STEPS.len().pow(k as u32) % STEPS.len()]).collect();
        for &m in manners { for drop_tnc in [false, true] { all.push(history(focus, steps.clone(), m, drop_tnc, reads)); } }
    }
    all
}

/// All histories of exactly this length, each followed by a session with traffic; or with one in the middle.
pub fn talks(len: usize, manners: &[Manner], reads: Cuts) -> Vec<Scenario<'static>> {
    let mut all = vec![];
    for i in 0..STEPS.len().pow(len as u32) {
        let steps: Vec<Step> = (0..len).map(|k| STEPS[i / STEPS.len().pow(k as u32) % STEPS.len()]).collect();
        for &m in manners {
            all.push(history(Focus::Sessions, [&steps[..], &[Step::Talk]].concat(), m, false, reads));
            if len > 1 { all.push(history(Focus::Sessions, [&steps[..1], &[Step::Talk], &steps[1..], &[Step::Talk]].concat(), m, false, reads)); }
        }
    }
    all
}

/// Long mixtures of steps with a session with traffic now and then.
pub fn long_talks(shifts: usize) -> Vec<Scenario<'static>> {
    let mut all = vec![];
    for n in [10usize, 31, 100, 300] { for shift in 0..shifts { for m in MANNERS {
        let steps = (0..n).map(|i| if i % 5 == 4 || i + 1 == n { Step::Talk } else { STEPS[(i * i / 3 + i / 5 + shift) % STEPS.len()] }).collect();
        all.push(history(Focus::Sessions, steps, m, false, Cuts::Never));
    } } }
    all
}
