//! C20: the rig ends up in the transmit state the modem last asked for.

use crate::server::{show_failed, show_only, Exit, Family, Outcome, Run, Scenario};
use crate::world::*;
use mcsched::net::Cuts;
use mcsched::*;
use report::Tier;

pub fn ptt(on: bool) -> Act { say(if on { "PTT ON|" } else { "PTT OFF|" }) }

/// The PTT reports of a run: place in the log and value.
fn reports(e: &Ended) -> Vec<(usize, bool)> {
    let ctl = conn_of(e, control());
    let mut out = vec![];
    let mut line = vec![];
    for (k, ev) in e.log.iter().enumerate() {
        let Event::Sent { conn, data } = ev else { continue };
        if Some(*conn) != ctl { continue; }
        for b in data {
            if *b != b'\r' { line.push(*b); continue; }
            match &line[..] { b"PTT ON" => out.push((k, true)), b"PTT OFF" => out.push((k, false)), _ => {} }
            line.clear();
        }
    }
    out
}

/// Transmit (true) and receive commands the rig has got, with the place in the log of their last byte.
fn commands(e: &Ended) -> Vec<(usize, bool)> {
    let line = conn_of(e, rig());
    let mut out = vec![];
    let mut cmd = vec![];
    for (k, ev) in e.log.iter().enumerate() {
        let Event::Wrote { conn, data } = ev else { continue };
        if Some(*conn) != line { continue; }
        for b in data {
            if *b != b';' { cmd.push(*b); continue; }
            match &cmd[..] { b"TX" => out.push((k, true)), b"RX" => out.push((k, false)), _ => {} }
            cmd.clear();
        }
    }
    out
}

/// When the modem's control connection was lost: place in the log.
fn lost(e: &Ended) -> Option<usize> {
    let ctl = conn_of(e, control());
    e.log.iter().position(|ev| match ev {
        Event::Ended { conn, .. } => Some(*conn) == ctl,
        Event::Sent { conn, data } => Some(*conn) == ctl && data.starts_with(b"?"),
        _ => false,
    })
}

pub fn judge(run: &Run) -> Result<Exit, String> {
    let e = &run.ended;
    let (reports, commands) = (reports(e), commands(e));
    let gone = e.log.iter().position(|ev| matches!(ev, Event::Ended { conn, .. } if Some(*conn) == conn_of(e, rig())));
    let lost = lost(e);
    let closed = e.log.iter().position(|ev| matches!(ev, Event::Closed { conn } if Some(*conn) == conn_of(e, control())));
    let over = [lost, closed].into_iter().flatten().min();
    // The commands follow the order of the reports; the latest one may be repeated.
    let mut next = 0;
    for (i, (at, tx)) in commands.iter().enumerate() {
        match (next..reports.len()).find(|k| reports[*k].1 == *tx && reports[*k].0 < *at) {
            Some(k) => next = k,
            // With the modem gone, the rig may be put to receive for safety.
            None if !tx && i + 1 == commands.len() && over.is_some_and(|o| o < *at) => {}
            None => return Err(format!("command {} ({}) stands for no report of the modem", i + 1, if *tx { "TX" } else { "RX" })),
        }
    }
    if gone.is_some() { return Ok(Exit::Any); }
    let state_at = |k: usize| commands.iter().take_while(|c| c.0 < k).last().is_some_and(|c| c.1);
    for (k, ev) in e.log.iter().enumerate() {
        if !matches!(ev, Event::Mark("quiet", _)) || over.is_some_and(|o| o < k) { continue; }
        if let Some((_, want)) = reports.iter().take_while(|r| r.0 < k).last() {
            if state_at(k) != *want { return Err(format!("nothing moves any more, the last report is {}, and the rig is {}", if *want { "PTT ON" } else { "PTT OFF" }, if *want { "receiving" } else { "transmitting" })); }
        }
    }
    if lost.is_some() && state_at(usize::MAX) { return Err("the modem is gone and the rig is left transmitting".into()); }
    if run.outcome == Outcome::Returned && state_at(usize::MAX) { return Err("the program is over and the rig is left transmitting".into()); }
    Ok(Exit::Any)
}

#[derive(Clone)]
pub struct Plan {
    pub modem: Vec<Act>,
    pub rig: Vec<Act>,
    pub operator: Vec<Act>,
    pub cuts: (Cuts, Cuts, bool),
    pub rig_cap: Option<usize>,
}
pub fn operator() -> Vec<Act> { vec![Act::Asked, Act::Type("\n"), Act::Asked, Act::EndInput] }

pub fn scenario(p: Plan) -> Scenario {
    Scenario {
        name: format!("modem: {}; rig: {}{}{}", shorts(&p.modem), shorts(&p.rig), p.rig_cap.map_or(String::new(), |c| format!("; the serial line holds {c} bytes")), if p.cuts.1 == Cuts::Never { "" } else { "; short reads and writes" }),
        args: args(),
        setup: Box::new(move || {
            network(p.cuts.0, p.cuts.1, p.cuts.2);
            if let Some(c) = p.rig_cap { rt().world.caps.push((rig(), c)); }
            hold_unless_told(&[&p.modem, &p.operator]);
            actor("modem", p.modem.clone());
            if !p.rig.is_empty() { actor("rig", p.rig.clone()); }
            actor("operator", p.operator.clone());
        }),
        judge: Box::new(judge),
        logs: vec!["off"],
    }
}

/// A whole session; reports go in before step `at`.
fn session(reports: Vec<Act>, at: usize) -> Vec<Act> {
    let mut s = opening();
    let up = s.len();
    s.extend([text("hello|hi>|"), Act::Settle, text("more|bye|"), Act::Settle]);
    s.extend([say("DISCONNECTED|"), Act::Serve]);
    let at = at.min(s.len() - 1);
    let mut quiet = vec![Act::Settle, Act::Look("quiet")];
    if at < up { s.splice(up..up, quiet.clone()); s.splice(at..at, reports); }
    else { let mut r = reports; r.append(&mut quiet); s.splice(at..at, r); }
    // Long before the reports nothing is explored.
    let from = at.saturating_sub(1);
    s.insert(from, Act::Explore);
    s
}
const STEPS: usize = 14;

fn sequences(max: usize) -> Vec<Vec<bool>> {
    let mut v = vec![];
    for n in 1..=max { for i in 0..1usize << n { v.push((0..n).map(|k| i >> k & 1 == 0).collect()); } }
    v
}
/// The ways of sending a sequence of reports: all at once, one by one, with pauses, cut.
fn ways(seq: &[bool]) -> Vec<Vec<Act>> {
    let joined: String = seq.iter().map(|on| if *on { "PTT ON|" } else { "PTT OFF|" }).collect();
    let mut v = vec![seq.iter().map(|on| ptt(*on)).collect::<Vec<_>>()];
    if seq.len() > 1 {
        v.push(vec![say(&joined)]);
        v.push(seq.iter().flat_map(|on| [ptt(*on), Act::Settle]).collect());
    }
    let half = joined.len() - 3;
    v.push(vec![say(&joined[..half]), Act::Settle, say(&joined[half..])]);
    v
}
pub fn losses() -> Vec<Act> { vec![Act::CloseControl, Act::ResetControl, Act::FinControl, say("?|")] }

const NO: (Cuts, Cuts, bool) = (Cuts::Never, Cuts::Never, false);

pub fn c20(tier: Tier) -> Vec<Family> {
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    // Sequences at every phase.
    let mut v = vec![];
    for seq in sequences(if t { 4 } else { 3 }) { for way in ways(&seq) { for at in 0..STEPS {
        if !t && seq.len() == 3 && at % 4 != 1 { continue; }
        v.push(scenario(Plan { modem: session(way.clone(), at), rig: vec![], operator: operator(), cuts: NO, rig_cap: None }));
    } } }
    out.push(Family { label: "reports at every phase of a session", bound: if t { 2 } else { 1 }, scenarios: v });
    // Long bursts that outrun the bridge, deeper schedules.
    let mut v = vec![];
    for seq in sequences(if t { 5 } else { 4 }) {
        if seq.len() < 2 { continue; }
        for way in ways(&seq).into_iter().take(if t { 2 } else { 1 }) {
            let mut s = opened();
            s.extend(way);
            s.extend([Act::Settle, Act::Look("quiet"), say("DISCONNECTED|"), Act::Serve]);
            v.push(scenario(Plan { modem: s, rig: vec![], operator: operator(), cuts: NO, rig_cap: None }));
        }
    }
    out.push(Family { label: "bursts", bound: if t { 3 } else { 2 }, scenarios: v });
    // The modem is lost.
    let mut v = vec![];
    for seq in [vec![true], vec![true, false, true], vec![true, false], vec![false, true]] { for loss in losses() { for at in 0..STEPS { for pause in [false, true] {
        let mut r: Vec<Act> = seq.iter().map(|on| ptt(*on)).collect();
        if pause { r.push(Act::Settle); }
        r.push(loss.clone());
        let mut s = session(r, at);
        let k = s.iter().position(|a| *a == loss).unwrap();
        s.truncate(k + 1);
        v.push(scenario(Plan { modem: s, rig: vec![], operator: operator(), cuts: NO, rig_cap: None }));
        // Or later.
        if !pause && loss == Act::CloseControl {
            let mut s = session(seq.iter().map(|on| ptt(*on)).collect(), at);
            s.retain(|a| *a != Act::Serve && *a != say("DISCONNECTED|"));
            s.push(loss.clone());
            v.push(scenario(Plan { modem: s, rig: vec![], operator: operator(), cuts: NO, rig_cap: None }));
        }
    } } } }
    out.push(Family { label: "the modem is lost", bound: if t { 2 } else { 1 }, scenarios: v });
    // Slow and talkative rigs, short writes.
    let mut v = vec![];
    for seq in sequences(if t { 4 } else { 3 }) { for (rig, cap) in [
        (vec![Act::RigSays(b"ID017;;\xff".to_vec()), Act::Settle, Act::RigSays(b";TX".to_vec())], None),
        (vec![Act::RigTakes(1); 40], Some(1)),
        (vec![Act::RigTakes(2); 30], Some(2)),
        (vec![], None),
    ] {
        let mut s = opened();
        s.extend(seq.iter().map(|on| ptt(*on)));
        s.extend([Act::Settle, Act::Look("quiet"), text("hi>|"), Act::Settle, say("DISCONNECTED|"), Act::Serve]);
        v.push(scenario(Plan { modem: s, cuts: if cap.is_some() || !rig.is_empty() { NO } else { (Cuts::Never, Cuts::Some, true) }, rig, operator: operator(), rig_cap: cap }));
    } }
    out.push(Family { label: "slow and talkative rigs", bound: if t { 2 } else { 1 }, scenarios: v });
    // The rig is lost: the session goes on, and everything ends.
    let mut v = vec![];
    for seq in sequences(2) { for loss in [Act::RigHangs, Act::RigFails] { for k in 0..=seq.len() {
        let mut s = opened();
        for (i, on) in seq.iter().enumerate() { if i == k { s.extend([Act::Raise("rig"), Act::Settle]); } s.push(ptt(*on)); }
        if k == seq.len() { s.push(Act::Raise("rig")); }
        s.extend([Act::Settle, text("hi>|"), Act::Settle, say("DISCONNECTED|"), Act::Serve]);
        v.push(scenario(Plan { modem: s, rig: vec![Act::Await("rig"), loss.clone()], operator: operator(), cuts: NO, rig_cap: None }));
    } } }
    out.push(Family { label: "the rig is lost", bound: if t { 2 } else { 1 }, scenarios: v });
    // Many reports.
    let mut v = vec![];
    for n in [10usize, 33, 100, 257, 1000] { for odd in [2usize, 3, 5] { for way in 0..4 { for last in [false, true] {
        let mut seq: Vec<bool> = (0..n - 1).map(|k| (k * k / odd + k) % odd != 0).collect();
        seq.push(last);
        let reports = ways(&seq).swap_remove(way);
        for (rig, cap) in [(vec![], None), ((0..n).flat_map(|_| [Act::RigSays(b"IF00014200000;;ID0".to_vec()), Act::Settle]).collect(), None), (vec![Act::RigTakes(2); 2 * n + 5], Some(2))] {
            if n > 257 && (cap.is_some() || !rig.is_empty()) { continue; }
            let mut s = opened();
            s.extend(reports.clone());
            s.extend([Act::Settle, Act::Look("quiet"), text("hi>|"), Act::Settle]);
            if way == 3 { s.push(Act::CloseControl); } else { s.extend([say("DISCONNECTED|"), Act::Serve]); }
            v.push(scenario(Plan { modem: s, rig, operator: operator(), cuts: NO, rig_cap: cap }));
        }
    } } } }
    let many = v;
    // The program has to give up while the rig transmits.
    let mut v = vec![];
    for seq in sequences(2) { for k in 0..2 { for error in [libc::EPIPE, libc::ENOSPC] { for after in [false, true] {
        let mut s = opened();
        let reports = seq.iter().map(|on| ptt(*on));
        if !after { s.extend(reports.clone()); s.push(Act::Settle); }
        s.extend([text("hello|"), Act::Settle, text("more|hi>|")]);
        if after { s.extend(reports); }
        s.extend([Act::Settle, say("DISCONNECTED|"), Act::Serve]);
        let mut x = scenario(Plan { modem: s, rig: vec![], operator: operator(), cuts: NO, rig_cap: None });
        x.name += &format!("; standard output fails after {k} lines with error {error}");
        let setup = x.setup;
        x.setup = Box::new(move || { show_only(k, error); setup(); });
        x.judge = Box::new(|run| judge(run).map(|_| if show_failed() { Exit::Nonzero } else { Exit::Any }));
        v.push(x);
    } } } }
    out.push(Family { label: "standard output fails", bound: if t { 2 } else { 1 }, scenarios: v });
    let v = many;
    out.push(Family { label: "up to 1000 reports", bound: 0, scenarios: v });
    out
}
