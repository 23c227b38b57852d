//! C15: connect reports its own attempt; C16: sessions carry bytes faithfully and end for good;
//! C17: every session is torn down once.

use crate::commands::{run, Ask};
use crate::history::{histories, long_histories, long_talks, talks, Focus, MANNERS};
use crate::kit::*;
use crate::user::*;
use mcsched::explore::Scenario;
use mcsched::net::Cuts;
use mcsched::*;
use report::{hex, Check};

const UP: &str = "CONNECTED KC1GSL W1AW|";

/// How an attempt goes, as the modem tells it after taking the request: pieces sent one by one.
#[derive(Clone, Debug)]
pub struct Attempt { said: Vec<&'static str>, up: bool }

pub fn attempts() -> Vec<Attempt> {
    let a = |said: &[&'static str], up| Attempt { said: said.to_vec(), up };
    vec![
        a(&["OK|", UP], true),
        a(&["OK|", "DISCONNECTED|"], false),
        a(&["WRONG|"], false),
        a(&["OK|CONNECTED KC1GSL W1AW|"], true),
        a(&["OK|DISCONNECTED|"], false),
        a(&["OK|", "PENDING|", UP], true),
        a(&["OK|PENDING|", "CANCELPENDING|", "DISCONNECTED|"], false),
        a(&["OK|PENDING|CANCELPENDING|CONNECTED KC1GSL W1AW|"], true),
        a(&["BUFFER 4|OK|BUSY ON|", "PTT ON|PTT OFF|IAMALIVE|", "REGISTERED KC1GSL|CONNECTED KC1GSL W1AW|BUFFER 0|"], true),
        a(&["BUSY ON|WRONG|BUSY OFF|"], false),
        a(&["O", "K|DISCON", "NECTED|BUFFER 1|"], false),
        a(&["OK", "|CONNEC", "TED KC1GSL W1AW", "|"], true),
        // Answered only after some time.
        a(&["IAMALIVE|", "BUFFER 3|", "OK|", "IAMALIVE|", "PTT ON|", "PTT OFF|", UP], true),
        a(&["PENDING|", "OK|", "CANCELPENDING|", "BUSY ON|", "DISCONNECTED|"], false),
    ]
}

/// How a session that came about ends. Without a session nothing is done.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ending {
    /// The remote end leaves; the user reads the end, then drops the session.
    RemoteSeen,
    /// The remote end leaves; the user waits without looking at the session, then drops it.
    RemoteWaited,
    /// The remote end leaves while the user drops the session.
    RemoteRace,
    /// The remote end leaves while the user disconnects.
    RemoteRaceDisconnect,
    Disconnect,
    Abort,
    Drop,
    /// Disconnecting or aborting is begun and given up after so many polls; the session is gone.
    QuitDisconnect(usize),
    QuitAbort(usize),
}
pub const QUITS: [Ending; 4] = [Ending::QuitDisconnect(1), Ending::QuitAbort(1), Ending::QuitDisconnect(2), Ending::QuitDisconnect(0)];
pub const ENDINGS: [Ending; 7] = [Ending::Disconnect, Ending::Drop, Ending::RemoteSeen, Ending::Abort, Ending::RemoteWaited, Ending::RemoteRace, Ending::RemoteRaceDisconnect];

/// What the modem says when it has taken the teardown.
/// (The last repeats, before the end, that the session is up.)
const FAREWELLS: [&[&str]; 6] = [&["OK|", "DISCONNECTED|"], &["OK|DISCONNECTED|"], &["DISCONNECTED|", "OK|"], &["OK|", "PTT ON|", "PTT OFF|", "BUFFER 0|DISCONNECTED|"], &["DISCONNECTED|OK|"],
    &["OK|", "CONNECTED KC1GSL W1AW|", "DISCONNECTED|"]];

#[derive(Clone, Debug)]
pub struct Round { pub attempt: Attempt, pub ending: Ending, pub farewell: usize, pub calm: bool }

impl Round {
    fn show(&self) -> String {
        let mut s = format!("{:?}", self.attempt.said.concat());
        if self.attempt.up { s += &format!(" then {:?}", self.ending); if !matches!(self.ending, Ending::RemoteSeen | Ending::RemoteWaited) { s += &format!(" answered {:?}", FAREWELLS[self.farewell]); } }
        if self.calm { s += " slowly"; }
        s
    }
}

/// Both sides' parts.
pub fn parts(rounds: &[Round]) -> (Vec<Act>, Vec<Do>) {
    let (mut script, mut ops) = (vec![], vec![]);
    for (i, r) in rounds.iter().enumerate() {
        let (left, stay) = (nth("left", i), nth("stay", i));
        let speak = |script: &mut Vec<Act>, words: &[&str]| for (k, w) in words.iter().enumerate() {
            if k > 0 && r.calm { script.push(Act::Settle); }
            script.push(say(w));
        };
        script.push(Act::Take);
        if r.calm { script.push(Act::Settle); }
        speak(&mut script, &r.attempt.said);
        ops.push(Do::Connect);
        if !r.attempt.up { ops.push(Do::Drop); continue; }
        match r.ending {
            Ending::RemoteSeen => {
                script.extend([Act::Await(stay), say("DISCONNECTED|")]);
                ops.extend([Do::Raise(stay), Do::Read(4), Do::Drop]);
            }
            Ending::RemoteWaited => {
                script.extend([Act::Await(stay), say("DISCONNECTED|"), Act::Settle, Act::Raise(left)]);
                ops.extend([Do::Raise(stay), Do::Await(left), Do::Drop]);
            }
            Ending::RemoteRace | Ending::RemoteRaceDisconnect => {
                // The teardown may or may not come; its answer must not be mistaken for a later one.
                script.extend([Act::Await(stay), say("DISCONNECTED|"), Act::TakeIfTeardown]);
                ops.extend([Do::Raise(stay), if r.ending == Ending::RemoteRace { Do::Drop } else { Do::Disconnect }]);
            }
            Ending::QuitDisconnect(n) | Ending::QuitAbort(n) => {
                script.push(Act::Take);
                speak(&mut script, FAREWELLS[r.farewell]);
                script.push(Act::TakeIfTeardown);
                ops.push(if matches!(r.ending, Ending::QuitAbort(_)) { Do::QuitAbort(n) } else { Do::QuitDisconnect(n) });
            }
            Ending::Disconnect | Ending::Abort | Ending::Drop => {
                script.push(Act::Take);
                speak(&mut script, FAREWELLS[r.farewell]);
                ops.push(match r.ending { Ending::Disconnect => Do::Disconnect, Ending::Abort => Do::Abort, _ => Do::Drop });
            }
        }
    }
    (script, ops)
}

pub fn series(focus: Focus, rounds: Vec<Round>, drop_tnc: bool, reads: Cuts) -> Scenario<'static> {
    let (script, mut ops) = parts(&rounds);
    if drop_tnc { ops.push(Do::DropTnc); }
    let o2 = ops.clone();
    Scenario {
        name: format!("{}{}", rounds.iter().map(Round::show).collect::<Vec<_>>().join("; "), if drop_tnc { "; handle dropped at once" } else { "" }),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(reads, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            finished(e, "user")?;
            if focus != Focus::Teardowns { outcomes(e, &rounds, &o2)?; }
            if focus == Focus::Outcomes { return Ok(()); }
            all_finished(e)?;
            teardowns(e, &rounds)
        }),
    }
}

/// C15: each connect is told what the modem said about that attempt.
fn outcomes(e: &Ended, rounds: &[Round], ops: &[Do]) -> Result<(), String> {
    let mut connects = ops.iter().enumerate().filter(|o| *o.1 == Do::Connect).map(|o| o.0);
    for (i, r) in rounds.iter().enumerate() {
        let k = connects.next().unwrap();
        let got = result(e, k).unwrap_or("missing");
        let want = if r.attempt.up { "ok" } else { "error" };
        if got != want { return Err(format!("attempt {}: the modem says {:?}, connect ends with {got}", i + 1, r.attempt.said.concat())); }
    }
    Ok(())
}

/// C17: what the modem receives between two requests is the one teardown that belongs there.
fn teardowns(e: &Ended, rounds: &[Round]) -> Result<(), String> {
    let bytes = written(e, ctl(e));
    let text = String::from_utf8_lossy(&bytes).into_owned();
    let mut lines: Vec<&str> = text.split('\r').collect();
    if lines.pop() != Some("") { return Err(format!("the last command is not ended: {}", report::show(&bytes))); }
    let mut rest = lines.as_slice();
    for (i, r) in rounds.iter().enumerate() {
        let Some(("CONNECT KC1GSL W1AW", tail)) = rest.split_first().map(|(a, b)| (*a, b)) else { return Err(format!("request {} does not come next: {lines:?}", i + 1)) };
        let n = tail.iter().position(|l| l.starts_with("CONNECT ")).unwrap_or(tail.len());
        let here = &tail[..n];
        let fits = if !r.attempt.up { here.is_empty() } else {
            match r.ending {
                Ending::RemoteSeen | Ending::RemoteWaited => here.is_empty(),
                Ending::RemoteRace | Ending::RemoteRaceDisconnect => here.is_empty() || here == ["DISCONNECT"],
                Ending::Disconnect | Ending::Drop => here == ["DISCONNECT"],
                Ending::Abort => here == ["ABORT"],
                // What was begun may have been taken or not; either way the session is torn down.
                Ending::QuitDisconnect(_) => here == ["DISCONNECT"] || here == ["DISCONNECT", "DISCONNECT"],
                Ending::QuitAbort(_) => here == ["ABORT"] || here == ["DISCONNECT"] || here == ["ABORT", "DISCONNECT"],
            }
        };
        if !fits { return Err(format!("session {} ({}) is torn down by {here:?}: {lines:?}", i + 1, r.show())); }
        rest = &tail[n..];
    }
    if !rest.is_empty() { return Err(format!("too many requests: {lines:?}")); }
    Ok(())
}

pub fn rounds_of(a: &[Attempt], endings: &[Ending], farewells: &[usize], calm: &[bool]) -> Vec<Round> {
    let mut v = vec![];
    for attempt in a { for &calm in calm {
        if !attempt.up { v.push(Round { attempt: attempt.clone(), ending: Ending::Drop, farewell: 0, calm }); continue; }
        for &ending in endings {
            let fs: &[usize] = if matches!(ending, Ending::RemoteSeen | Ending::RemoteWaited | Ending::RemoteRace | Ending::RemoteRaceDisconnect) { &[0] } else { farewells };
            for &farewell in fs { v.push(Round { attempt: attempt.clone(), ending, farewell, calm }); }
        }
    } }
    v
}

/// A long series: attempts, endings and manners in a fixed mixture.
fn many_rounds(n: usize, shift: usize) -> Vec<Round> {
    let every = rounds_of(&attempts(), &ENDINGS, &[0, 1, 2, 3, 4, 5], &[false, true]);
    (0..n).map(|i| every[(i * 37 + i / 7 + shift * 11) % every.len()].clone()).collect()
}

pub fn c15(check: &Check) {
    let all = attempts();
    // One attempt, told in every way.
    let mut one = vec![];
    for r in rounds_of(&all, &ENDINGS, &[0, 1, 2, 3, 4, 5], &[false, true]) { one.push(series(Focus::Outcomes, vec![r], false, Cuts::Some)); }
    run(check, "one attempt", check.pick(2, 3), one);
    // Two in a row: everything the first may leave behind meets everything the second may be.
    let mut two = vec![];
    for first in rounds_of(&all[..6], &ENDINGS, &[0, 1, 2, 3, 5], &[false, true]) {
        for second in rounds_of(&all[..7], &[Ending::Disconnect], &[1], &[false, true]) { two.push(series(Focus::Outcomes, vec![first.clone(), second], false, Cuts::Never)); }
    }
    run(check, "two attempts in a row", check.pick(1, 2), two);
    let mut core = vec![];
    for first in rounds_of(&all[..3], &ENDINGS, &[0, 2], &[false]) {
        for second in rounds_of(&all[..3], &[Ending::Drop], &[0], &[false]) { core.push(series(Focus::Outcomes, vec![first.clone(), second], false, Cuts::Never)); }
    }
    run(check, "two plain attempts in a row", check.pick(2, 3), core);
    let mut three = vec![];
    for a in rounds_of(&all[..3], &ENDINGS, &[0, 2], &[false]) {
        for b in rounds_of(&all[..3], &ENDINGS, &[0, 2], &[false]) {
            for c in rounds_of(&all[..2], &[Ending::RemoteSeen], &[0], &[false]) { three.push(series(Focus::Outcomes, vec![a.clone(), b.clone(), c], false, Cuts::Never)); }
        }
    }
    run(check, "three attempts in a row", check.pick(1, 2), three);
    let mut fleeting = vec![];
    for said in ["OK|CONNECTED KC1GSL W1AW|DISCONNECTED|", "OK|PENDING|CONNECTED KC1GSL W1AW|BUFFER 0|DISCONNECTED|"] {
        for second in rounds_of(&all[..4], &[Ending::Disconnect, Ending::Drop], &[0, 1, 2], &[false, true]) { fleeting.push(short_lived(said, second)); }
    }
    run(check, "a connection that ends at once, then another attempt", check.pick(2, 3), fleeting);
    let mut busy = vec![];
    for r in rounds_of(&all, &[Ending::Disconnect], &[0], &[false, true]) { busy.push(amid(r)); }
    run(check, "an attempt while other commands were abandoned", check.pick(2, 3), busy);
    for (len, bound) in check.pick(vec![(1, 2), (2, 1), (3, 1)], vec![(1, 4), (2, 3), (3, 2)]) { run(check, &format!("every history of {len} steps"), bound, histories(Focus::Outcomes, len, &MANNERS, Cuts::Some)); }
    let mut long = vec![];
    for n in [10, 40, 150] { for shift in 0..check.pick(6, 30) { long.push(series(Focus::Outcomes, many_rounds(n, shift), false, Cuts::Never)); } }
    run(check, "up to 150 attempts in a row", 0, long);
    run(check, "long histories", 0, long_histories(Focus::Outcomes, check.pick(9, 27)));
    let mut calls = vec![];
    let names: Vec<String> = ["W1A", "A1B", "K1AB", "W1AW", "2E0AB", "G4ABC", "KC1GSL", "9A12BC", "VK2ABCD", "ZZ99ZZZ"].iter().flat_map(|c| ["", "-1", "-9", "-15", "-R", "-TX", "-0"].map(|s| format!("{c}{s}"))).collect();
    for from in &names { for to in &names { for up in [true, false] { calls.push(between(from.clone(), to.clone(), up)); } } }
    run(check, "between any two stations", 0, calls);
}

/// One attempt between these stations.
fn between(from: String, to: String, up: bool) -> Scenario<'static> {
    let said = if up { format!("OK|CONNECTED {from} {to}|") } else { "OK|DISCONNECTED|".into() };
    let (f, t, answer) = (from.clone(), to.clone(), said.clone());
    Scenario {
        name: format!("{from} calls {to}: {said:?}"),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Never, false);
            world("modem", modem(vec![Act::Take, say(&answer), Act::Settle]));
            let (f, t) = (id(&f), id(&t));
            caller("user", async move {
                let mut tnc = tnc().await;
                let r = tnc.connect(f, t).await;
                note(format!("connect: {}", outcome(&r)));
            });
        }),
        judge: Box::new(move |e| {
            let want = if up { "ok" } else { "error" };
            let got = notes(e, "connect: ");
            if got != [want] { return Err(format!("{from} calls {to}, the modem says {said:?}, connect ends with {got:?}")); }
            let taken = taken(e);
            if taken.first() != Some(&&*format!("CONNECT {from} {to}")) { return Err(format!("{from} calls {to}, the modem is told {taken:?}")); }
            Ok(())
        }),
    }
}

/// An attempt that connects and ends before anybody has looked may be reported either way; the
/// next one is on its own.
fn short_lived(said: &'static str, second: Round) -> Scenario<'static> {
    let (mut script, mut ops) = (vec![Act::Take, say(said), Act::TakeIfTeardown], vec![Do::Connect, Do::Drop]);
    let (s, o) = parts(&[second.clone()]);
    script.extend(s);
    let at = ops.len();
    ops.extend(o);
    Scenario {
        name: format!("{said:?}; {}", second.show()),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            let got = result(e, at).unwrap_or("missing");
            let want = if second.attempt.up { "ok" } else { "error" };
            if got != want { return Err(format!("the modem says {:?}, connect ends with {got}", second.attempt.said.concat())); }
            Ok(())
        }),
    }
}

/// Commands were sent and given up before the attempt; their answers come in between.
fn amid(r: Round) -> Scenario<'static> {
    let (s, o) = parts(&[r.clone()]);
    let mut script = vec![Act::Take, Act::Settle, say("WRONG|BUFFER 2|")];
    script.extend(s);
    let mut ops = vec![Do::GiveUp(Ask::Call, 1)];
    ops.extend(o);
    Scenario {
        name: format!("an abandoned command, then {}", r.show()),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            let got = result(e, 1).unwrap_or("missing");
            let want = if r.attempt.up { "ok" } else { "error" };
            if got != want { return Err(format!("the modem says {:?}, connect ends with {got}", r.attempt.said.concat())); }
            Ok(())
        }),
    }
}

pub fn c17(check: &Check) {
    let all = attempts();
    let mut one = vec![];
    for r in rounds_of(&[all[0].clone(), all[3].clone(), all[5].clone(), all[8].clone()], &ENDINGS, &[0, 1, 2, 3, 4], &[false, true]) {
        one.push(series(Focus::Teardowns, vec![r.clone()], false, Cuts::Some));
        one.push(series(Focus::Teardowns, vec![r], true, Cuts::Some));
    }
    run(check, "one session, handle kept or dropped", check.pick(2, 3), one);
    let mut two = vec![];
    for first in rounds_of(&all[..4], &ENDINGS, &[0, 1, 2, 3, 4, 5], &[false, true]) {
        for second in rounds_of(&all[..3], &ENDINGS[..4], &[0, 2], &[false]) {
            two.push(series(Focus::Teardowns, vec![first.clone(), second.clone()], true, Cuts::Never));
        }
    }
    run(check, "two sessions", check.pick(1, 2), two);
    let mut core = vec![];
    for first in rounds_of(&all[..1], &ENDINGS, &[0, 1, 2], &[false]) {
        for second in rounds_of(&all[..2], &ENDINGS[..2], &[0], &[false]) { core.push(series(Focus::Teardowns, vec![first.clone(), second.clone()], true, Cuts::Never)); }
    }
    run(check, "two plain sessions", check.pick(2, 3), core);
    let mut three = vec![];
    for a in rounds_of(&all[..2], &ENDINGS, &[0], &[false]) { for b in rounds_of(&all[..2], &ENDINGS, &[0], &[false]) { for c in rounds_of(&all[..1], &ENDINGS, &[0], &[false]) {
        three.push(series(Focus::Teardowns, vec![a.clone(), b.clone(), c], true, Cuts::Never));
    } } }
    run(check, "three sessions", check.pick(1, 2), three);
    let (mut given_up, mut again) = (vec![], vec![]);
    for first in rounds_of(&[all[0].clone(), all[8].clone()], &QUITS, &[0, 1, 2, 3, 4], &[false, true]) {
        given_up.push(series(Focus::Teardowns, vec![first.clone()], false, Cuts::Never));
        given_up.push(series(Focus::Teardowns, vec![first.clone()], true, Cuts::Never));
        for second in rounds_of(&all[..2], &[Ending::Disconnect, Ending::Drop, Ending::QuitDisconnect(1)], &[0], &[false]) { again.push(series(Focus::All, vec![first.clone(), second.clone()], true, Cuts::Never)); }
    }
    run(check, "disconnecting is begun and given up", check.pick(2, 3), given_up);
    run(check, "disconnecting is begun and given up, then another session", check.pick(1, 2), again);
    // The session has been used before it ends.
    let mut used = vec![];
    for end in [Do::Disconnect, Do::Abort, Do::Drop] {
        for work in [
            vec![Do::Write(b"hello".to_vec())], vec![Do::Read(3)], vec![Do::Read(0)], vec![Do::Write(b"a".to_vec()), Do::Flush, Do::Shut],
            vec![Do::Both(vec![Do::Read(3)], vec![Do::Write(b"xyz".to_vec())])], vec![Do::Settle],
        ] { for refused in [false, true] { for again in [false, true] { used.push(worked(work.clone(), end.clone(), refused, again)); } } }
    }
    run(check, "sessions that were used, teardown accepted or refused", check.pick(2, 3), used);
    for (len, bound) in check.pick(vec![(1, 3), (2, 2), (3, 1)], vec![(1, 5), (2, 3), (3, 2), (4, 1)]) { run(check, &format!("every history of {len} steps"), bound, histories(Focus::Teardowns, len, &MANNERS, Cuts::Never)); }
    let mut long = vec![];
    for n in [10, 40, 150] { for shift in 0..check.pick(6, 30) { for drop_tnc in [false, true] { long.push(series(Focus::Teardowns, many_rounds(n, shift), drop_tnc, Cuts::Never)); } } }
    run(check, "up to 150 sessions in a row", 0, long);
    run(check, "long histories", 0, long_histories(Focus::Teardowns, check.pick(9, 27)));
}

pub fn worked(work: Vec<Do>, end: Do, refused: bool, again: bool) -> Scenario<'static> {
    let mut script = vec![Act::Take, say("OK|CONNECTED KC1GSL W1AW|"), Act::Data(b"abc".to_vec()), Act::Take];
    if refused { script.push(say("WRONG|")); script.push(Act::TakeIfTeardown); script.push(say("DISCONNECTED|")); } else { script.push(say("OK|DISCONNECTED|")); }
    let mut ops = vec![Do::Connect];
    ops.extend(work.iter().cloned());
    ops.push(end.clone());
    if again {
        script.extend([Act::Take, say("OK|CONNECTED KC1GSL W1AW|"), Act::Take, say("OK|DISCONNECTED|")]);
        ops.extend([Do::Connect, Do::Drop]);
    }
    ops.push(Do::DropTnc);
    Scenario {
        name: format!("{}{}", doings(&ops), if refused { ", the modem refuses the teardown" } else { "" }),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            let bytes = written(e, ctl(e));
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let lines: Vec<&str> = text.split('\r').collect();
            let word = if end == Do::Abort { "ABORT" } else { "DISCONNECT" };
            let tail: Vec<&str> = if again { vec!["CONNECT KC1GSL W1AW", "DISCONNECT", ""] } else { vec![""] };
            let strict = [vec!["CONNECT KC1GSL W1AW", word], tail.clone()].concat();
            let fallback = [vec!["CONNECT KC1GSL W1AW", word, "DISCONNECT"], tail].concat();
            if lines != strict && !(refused && end != Do::Drop && lines == fallback) { return Err(format!("the modem receives {lines:?}")); }
            Ok(())
        }),
    }
}

// ---- C16 -------------------------------------------------------------------------------------

/// What the remote end does during a session.
pub fn exchange(name: String, acts: Vec<Act>, ops: Vec<Do>, cap: Option<usize>, cuts: (Cuts, Cuts, bool), remote_leaves: bool) -> Scenario<'static> {
    let mut script = vec![Act::Take, say("OK|CONNECTED KC1GSL W1AW|")];
    script.extend(acts.iter().cloned());
    let delivered: Vec<u8> = acts.iter().flat_map(|a| match a { Act::Data(d) => d.clone(), _ => vec![] }).collect();
    let mut all = vec![Do::Connect, Do::Raise("up")];
    all.extend(ops.iter().cloned());
    let ops = all;
    let o2 = ops.clone();
    Scenario {
        name: format!("{name}: modem {}; user {}", shorts(&acts), doings(&ops)),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(cuts.0, cuts.1, cuts.2);
            if let Some(c) = cap { rt().world.caps.push((data(), c)); }
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            finished(e, "user")?;
            if result(e, 0) != Some("ok") { return Err("connect fails".into()); }
            carried(e, &o2, &delivered, remote_leaves)
        }),
    }
}

/// Everything read and written is what was delivered and given, and the end is final.
fn carried(e: &Ended, ops: &[Do], delivered: &[u8], remote_leaves: bool) -> Result<(), String> {
    let ctl = ctl(e);
    let told = e.log.iter().position(|ev| matches!(ev, Event::Sent { conn, data } if *conn == ctl && (data.windows(13).any(|w| w == b"\rDISCONNECTED") || data.starts_with(b"DISCONNECTED"))));
    let mut flat: Vec<(usize, &Do)> = vec![];
    for (k, op) in ops.iter().enumerate() {
        match op {
            Do::Both(a, b) => {
                flat.extend(a.iter().enumerate().map(|(i, o)| (k * 100 + i, o)));
                flat.extend(b.iter().enumerate().map(|(i, o)| (k * 100 + 50 + i, o)));
            }
            _ => flat.push((k, op)),
        }
    }
    // Reads.
    let mut read: Vec<u8> = vec![];
    let mut over = false;
    let mut written_fully: Vec<u8> = vec![];
    let mut writes_failed = false;
    let mut extra: Option<&[u8]> = None;
    for (n, op) in &flat {
        let Some(r) = result(e, *n) else {
            if matches!(op, Do::Read(_) | Do::ReadAll(_) | Do::Write(_) | Do::WriteOnce(_) | Do::WriteVec(_) | Do::Flush | Do::Shut) { return Err(format!("operation {n} ({}) has no outcome", op.short())); }
            continue;
        };
        let place = result_place(e, *n).unwrap();
        match op {
            Do::Read(0) => if r != "got " { return Err(format!("operation {n}, a read of nothing, ends with {r}")); },
            Do::Read(_) | Do::ReadAll(_) => {
                let Some(g) = got(r) else { return Err(format!("operation {n} ({}) ends with {r}", op.short())) };
                if over && !g.is_empty() { return Err(format!("operation {n}: {} bytes after the end of the stream", g.len())); }
                read.extend(&g);
                if matches!(op, Do::ReadAll(_)) || g.is_empty() {
                    if matches!(op, Do::ReadAll(_)) && !r.ends_with(" end") { return Err(format!("operation {n}: reading ends with {r}")); }
                    over = true;
                    if told.is_none_or(|t| t > place) { return Err(format!("operation {n}: the stream ends although the remote end is still there")); }
                    if read != delivered { return Err(format!("operation {n}: the stream ends after {} of {} bytes", read.len(), delivered.len())); }
                }
            }
            Do::Write(_) | Do::WriteOnce(_) | Do::WriteVec(_) | Do::Flush | Do::Shut => {
                let seen = told.is_some_and(|t| t < place);
                if r.starts_with("error") {
                    if r != "error ConnectionAborted" { return Err(format!("operation {n} ({}) ends with {r}", op.short())); }
                    if !seen { return Err(format!("operation {n} ({}) is aborted although the remote end is still there", op.short())); }
                    writes_failed = true;
                    if let (Do::Write(d), None) = (op, extra) { extra = Some(d); }
                    continue;
                }
                if writes_failed { return Err(format!("operation {n} ({}) ends with {r} after the session was aborted", op.short())); }
                match op {
                    Do::Write(d) => written_fully.extend(d),
                    Do::WriteOnce(_) | Do::WriteVec(_) => {
                        let d: Vec<u8> = match op { Do::WriteOnce(d) => d.clone(), Do::WriteVec(v) => v.concat(), _ => unreachable!() };
                        let k: usize = r.strip_prefix("took ").and_then(|s| s.parse().ok()).ok_or_else(|| format!("operation {n} ends with {r}"))?;
                        if k > d.len() || (k == 0 && !d.is_empty()) { return Err(format!("operation {n} takes {k} of {} bytes", d.len())); }
                        written_fully.extend(&d[..k]);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    if !delivered.starts_with(&read) { return Err(format!("reads return {}, the modem delivered {}", hex(&read), hex(delivered))); }
    let wire = written(e, dat(e));
    if !wire.starts_with(&written_fully) { return Err(format!("{} was written, the data connection carries {}", hex(&written_fully), hex(&wire))); }
    let more = &wire[written_fully.len()..];
    if !more.is_empty() && !extra.is_some_and(|d| d.starts_with(more)) { return Err(format!("{} was written, the data connection carries {}", hex(&written_fully), hex(&wire))); }
    // After the end everything stays ended: operations begun once all was quiet.
    if remote_leaves {
        let mut quiet = false;
        for (n, op) in &flat {
            if **op == Do::Await("left") { quiet = true; }
            if !quiet { continue; }
            let r = result(e, *n).unwrap_or("");
            match op {
                Do::Write(_) | Do::WriteOnce(_) | Do::WriteVec(_) | Do::Flush | Do::Shut if r != "error ConnectionAborted" => return Err(format!("the remote end has left, but operation {n} ({}) ends with {r}", op.short())),
                _ => {}
            }
        }
        if flat.iter().any(|o| matches!(o.1, Do::ReadAll(_))) && !over { return Err("the stream never ends".into()); }
    }
    Ok(())
}

/// One of several sessions on the same data connection.
#[derive(Clone, Debug)]
struct Visit {
    /// What the remote station sends, and what of it is still under way when the user leaves.
    pieces: Vec<Vec<u8>>,
    late: Vec<u8>,
    /// What the user does before leaving.
    ops: Vec<Do>,
    ending: Ending,
    farewell: usize,
}

impl Visit {
    fn show(&self) -> String { format!("sent {:?}+{}, {}, {:?} {:?}", self.pieces.iter().map(Vec::len).collect::<Vec<_>>(), self.late.len(), doings(&self.ops), self.ending, FAREWELLS[self.farewell]) }
    /// Every visit of these shapes; `at` keeps the bytes of different visits apart.
    fn all(at: u8, pieces: &[&[usize]], endings: &[Ending], farewells: &[usize], ops: &[Vec<Do>], lates: &[usize]) -> Vec<Visit> {
        let mut v = vec![];
        for p in pieces { for &ending in endings { for &farewell in farewells { for o in ops { for &late in lates {
            let remote = matches!(ending, Ending::RemoteSeen | Ending::RemoteWaited);
            if remote && (farewell != farewells[0] || late > 0) { continue; }
            if p.is_empty() && o.iter().any(|o| matches!(o, Do::Read(_))) { continue; }
            let mut next = at;
            let mut bytes = |n: usize| -> Vec<u8> { (0..n).map(|_| { next += 1; next }).collect() };
            v.push(Visit { pieces: p.iter().map(|n| bytes(*n)).collect(), late: bytes(late), ops: o.clone(), ending, farewell });
        } } } } }
        v
    }
}

/// Several sessions in a row: what each reads was sent in it, what each writes arrives.
fn visits(vs: Vec<Visit>, reads: Cuts) -> Scenario<'static> {
    let (mut script, mut ops) = (vec![], vec![]);
    for (i, v) in vs.iter().enumerate() {
        let (left, stay) = (nth("left", i), nth("stay", i));
        script.extend([Act::Take, say("OK|CONNECTED KC1GSL W1AW|")]);
        script.extend(v.pieces.iter().map(|p| Act::Data(p.clone())));
        ops.push(Do::Connect);
        ops.extend(v.ops.iter().cloned());
        match v.ending {
            Ending::RemoteSeen => {
                script.extend([Act::Await(stay), say("DISCONNECTED|")]);
                ops.extend([Do::Raise(stay), Do::ReadAll(2), Do::Drop]);
            }
            Ending::RemoteWaited => {
                script.extend([Act::Await(stay), say("DISCONNECTED|"), Act::Settle, Act::Raise(left)]);
                ops.extend([Do::Raise(stay), Do::Await(left), Do::Drop]);
            }
            _ => {
                script.push(Act::Take);
                if !v.late.is_empty() { script.push(Act::Data(v.late.clone())); }
                script.extend(FAREWELLS[v.farewell].iter().map(|w| say(w)));
                ops.push(match v.ending { Ending::Disconnect => Do::Disconnect, Ending::Abort => Do::Abort, _ => Do::Drop });
            }
        }
    }
    let o2 = ops.clone();
    Scenario {
        name: vs.iter().map(Visit::show).collect::<Vec<_>>().join("; "),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(reads, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            finished(e, "user")?;
            let mut n = usize::MAX;
            let mut read: Vec<u8> = vec![];
            let mut given: Vec<u8> = vec![];
            for (k, op) in o2.iter().enumerate() {
                let r = result(e, k).unwrap_or("");
                match op {
                    Do::Connect => {
                        n = n.wrapping_add(1);
                        read.clear();
                        if r != "ok" { return Err(format!("session {}: connect ends with {r}", n + 1)); }
                        // What was written earlier has been carried before this session is asked for.
                        let begin = place(e, &format!("user {k} Connect: begins")).unwrap_or(0);
                        let before: Vec<u8> = e.log[..begin].iter().flat_map(|ev| match ev { Event::Wrote { conn, data } if *conn == dat(e) => data.clone(), _ => vec![] }).collect();
                        if before != given { return Err(format!("before session {} {} was written, the data connection carries {}", n + 1, hex(&given), hex(&before))); }
                    }
                    Do::Read(_) | Do::ReadAll(_) => {
                        let Some(g) = got(r) else { return Err(format!("session {}: {} ends with {r}", n + 1, op.short())) };
                        read.extend(&g);
                        let sent: Vec<u8> = vs[n].pieces.concat();
                        if !sent.starts_with(&read) || (matches!(op, Do::ReadAll(_)) && read != sent) { return Err(format!("session {} reads {}, in it {} was sent", n + 1, hex(&read), hex(&sent))); }
                        if g.is_empty() && matches!(op, Do::Read(_)) { return Err(format!("session {}: the stream ends although the remote end is still there", n + 1)); }
                    }
                    Do::Write(d) => {
                        if r != "ok" { return Err(format!("session {}: {} ends with {r}", n + 1, op.short())); }
                        given.extend(d);
                    }
                    Do::Flush | Do::Shut if r != "ok" => return Err(format!("session {}: {} ends with {r}", n + 1, op.short())),
                    _ => {}
                }
            }
            let wire = written(e, dat(e));
            if wire != given { return Err(format!("{} was written, the data connection carries {}", hex(&given), hex(&wire))); }
            Ok(())
        }),
    }
}

pub fn c25(check: &Check) {
    for (len, bound) in check.pick(vec![(1, 2), (2, 1), (3, 1), (4, 0)], vec![(1, 4), (2, 3), (3, 2), (4, 1), (5, 0)]) { run(check, &format!("a session with traffic after every history of {len} steps"), bound, talks(len, &MANNERS, Cuts::Never)); }
    run(check, "sessions with traffic in long histories", 0, long_talks(check.pick(9, 27)));
    let (w, x) = (Do::Write(b"ab".to_vec()), Do::Write(b"c".to_vec()));
    let ops = [vec![], vec![Do::Read(2)], vec![w.clone(), Do::Flush], vec![Do::Read(1), w.clone(), Do::Shut], vec![Do::Shut]];
    let mut two = vec![];
    for a in Visit::all(0, &[&[], &[3], &[2, 2]], &[Ending::RemoteSeen, Ending::RemoteWaited, Ending::Drop, Ending::Disconnect, Ending::Abort], &[0, 1, 2], &ops, &[0, 2]) {
        for b in Visit::all(100, &[&[], &[1, 2]], &[Ending::RemoteSeen, Ending::Drop], &[1], &[vec![], vec![x.clone(), Do::Flush], vec![Do::Read(4), x.clone()]], &[0]) {
            two.push(visits(vec![a.clone(), b], Cuts::Never));
        }
    }
    run(check, "two sessions with traffic", check.pick(1, 2), two);
    let mut three = vec![];
    for a in Visit::all(0, &[&[2]], &[Ending::RemoteWaited, Ending::Drop, Ending::Abort], &[1], &[vec![], vec![Do::Read(1), w.clone()]], &[0, 1]) {
        for b in Visit::all(50, &[&[], &[1, 1]], &[Ending::RemoteSeen, Ending::RemoteWaited, Ending::Disconnect], &[1], &[vec![x.clone()], vec![Do::Shut]], &[0, 1]) {
            for c in Visit::all(100, &[&[1, 2]], &[Ending::RemoteSeen], &[0], &[vec![Do::Read(4), w.clone()]], &[0]) {
                three.push(visits(vec![a.clone(), b.clone(), c], Cuts::Some));
            }
        }
    }
    run(check, "three sessions with traffic", check.pick(1, 2), three);
    // More is left behind than any buffer holds.
    let mut much = vec![];
    for n in [1usize, 255, 256, 1024, 4096, 10000, 70000] {
        for ending in [Ending::RemoteWaited, Ending::Drop] {
            let a = Visit { pieces: vec![vec![7; n]], late: vec![], ops: vec![], ending, farewell: 0 };
            let b = Visit { pieces: vec![vec![9; n]], late: vec![], ops: vec![w.clone()], ending: Ending::RemoteSeen, farewell: 0 };
            much.push(visits(vec![a.clone(), a, b], Cuts::Never));
        }
    }
    run(check, "much is left unread", 0, much);
}

pub fn numbers(n: usize) -> Vec<u8> { (0..n).map(|k| (k * 7 + k / 256) as u8).collect() }

pub fn c16(check: &Check) {
    // Delivered in pieces, read with all buffer sizes, then the end.
    let left = || vec![Act::Await("up"), say("DISCONNECTED|"), Act::Settle, Act::Raise("left")];
    let mut all = vec![];
    let pieces: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![5], vec![1, 1], vec![3, 2], vec![4, 1, 3], vec![1, 1, 1, 1]];
    let after: Vec<Vec<Do>> = vec![
        vec![Do::Read(4), Do::Read(1), Do::Read(0)],
        vec![Do::Write(b"x".to_vec()), Do::Flush, Do::Shut, Do::Read(2), Do::Write(b"y".to_vec()), Do::WriteVec(vec![b"a".to_vec(), b"b".to_vec()]), Do::Read(1), Do::Shut, Do::Flush],
    ];
    for p in &pieces { for calm in 0..3 { for buf in [1, 2, 3, 64] { for (i, tail) in after.iter().enumerate() {
        let bytes = numbers(p.iter().sum());
        let mut acts = vec![];
        let mut at = 0;
        for n in p {
            acts.push(Act::Data(bytes[at..at + n].to_vec()));
            at += n;
            if calm > 0 { acts.push(Act::Settle); }
        }
        if calm == 2 { acts.push(say("BUFFER 3|PTT ON|")); acts.push(Act::Settle); }
        acts.extend(left());
        // Read everything while it comes, or only once all is over.
        let mut early = vec![Do::ReadAll(buf), Do::Await("left")];
        early.extend(tail.iter().cloned());
        all.push(exchange("read".into(), acts.clone(), early, None, (if i == 0 { Cuts::Some } else { Cuts::Never }, Cuts::Never, false), true));
        let mut late = vec![Do::Await("left")];
        if i == 1 { late.extend(tail.iter().cloned().filter(|o| !matches!(o, Do::Read(_)))); }
        late.push(Do::ReadAll(buf));
        late.extend(tail.iter().cloned());
        all.push(exchange("read late".into(), acts, late, None, (Cuts::Never, Cuts::Never, false), true));
    } } } }
    run(check, "delivered in pieces, then the remote end leaves", check.pick(1, 2), all);
    let mut all = vec![];
    for p in [vec![], vec![3], vec![2, 2]] {
        let bytes = numbers(p.iter().sum());
        let mut acts = vec![];
        let mut at = 0;
        for n in &p { acts.push(Act::Data(bytes[at..at + n].to_vec())); at += n; }
        acts.extend(left());
        let mut ops = vec![Do::ReadAll(2), Do::Await("left")];
        ops.extend(after[1].iter().cloned());
        all.push(exchange("read".into(), acts.clone(), ops, None, (Cuts::Some, Cuts::Never, false), true));
        all.push(exchange("read by pieces".into(), acts.clone(), vec![Do::Read(2), Do::Await("left"), Do::ReadAll(1), Do::Read(1), Do::Flush], None, (Cuts::Some, Cuts::Never, false), true));
        all.push(exchange("read and write".into(), acts, vec![Do::Both(vec![Do::ReadAll(2), Do::Read(1)], vec![Do::Write(numbers(4)), Do::Flush, Do::Await("left"), Do::Write(b"z".to_vec()), Do::Shut]), Do::Read(3), Do::Flush], None, (Cuts::Some, Cuts::Some, false), true));
    }
    run(check, "delivered in pieces, then the remote end leaves, deeper", check.pick(2, 3), all);
    let mut all = vec![];
    for (acts, ops) in [
        (vec![Act::Data(numbers(2))], vec![Do::ReadAll(4)]),
        (vec![Act::Data(numbers(1)), Act::Data(numbers(2)[1..].to_vec())], vec![Do::ReadAll(1)]),
        (vec![], vec![Do::Write(numbers(2)), Do::ReadAll(1), Do::Flush]),
    ] {
        let mut acts = acts;
        acts.extend([Act::Await("up"), say("DISCONNECTED|")]);
        all.push(exchange("the last bytes and the end".into(), acts.clone(), ops.clone(), None, (Cuts::Never, Cuts::Never, false), true));
        acts.insert(0, Act::Await("up"));
        all.push(exchange("bytes and end at once".into(), acts, ops, None, (Cuts::Never, Cuts::Never, false), true));
    }
    run(check, "the last bytes race with the end", check.pick(3, 5), all);
    // Other reports around the end, in the same segment or not.
    let mut all = vec![];
    for end in ["PENDING|DISCONNECTED|", "DISCONNECTED|PENDING|", "DISCONNECTED|PENDING|CANCELPENDING|", "BUFFER 0|PTT OFF|DISCONNECTED|PTT OFF|BUFFER 0|", "IAMALIVE|BUSY ON|DISCONNECTED|BUSY OFF|IAMALIVE|REGISTERED KC1GSL|"] {
        for split in [false, true] { for n in [0, 3] {
            let lines: Vec<Act> = if split { end.split_inclusive('|').map(say).collect() } else { vec![say(end)] };
            let mut acts = vec![Act::Data(numbers(n)), Act::Await("up")];
            if n == 0 { acts.remove(0); }
            acts.extend(lines);
            acts.extend([Act::Settle, Act::Raise("left")]);
            let mut ops = vec![Do::ReadAll(2), Do::Await("left")];
            ops.extend(after[1].iter().cloned());
            all.push(exchange("other reports around the end".into(), acts.clone(), ops, None, (Cuts::Never, Cuts::Never, false), true));
            all.push(exchange("other reports around the end".into(), acts, vec![Do::Await("left"), Do::Flush, Do::Write(b"x".to_vec()), Do::ReadAll(2), Do::Read(1)], None, (Cuts::Never, Cuts::Never, false), true));
        } }
    }
    run(check, "other reports around the end", check.pick(2, 3), all);
    // Reports that say nothing about the session leave it as it is.
    let mut all = vec![];
    let says = ["CONNECTED KC1GSL W1AW|", "PENDING|", "CANCELPENDING|", "PENDING|CANCELPENDING|", "BUFFER 0|", "BUSY ON|", "PTT ON|", "REGISTERED KC1GSL|", "IAMALIVE|", "PTT ON|CONNECTED KC1GSL W1AW|BUFFER 3|CONNECTED KC1GSL W1AW|"];
    for a in says { for b in says {
        let acts = vec![Act::Await("up"), say(a), Act::Settle, Act::Data(numbers(3)), Act::Raise("more"), Act::TakeData(2), say(b), Act::Data(numbers(5)[3..].to_vec()), Act::Settle, say("DISCONNECTED|"), Act::Settle, Act::Raise("left")];
        let mut ops = vec![Do::Await("more"), Do::Write(numbers(2)), Do::Flush, Do::ReadAll(2), Do::Await("left")];
        ops.extend(after[1].iter().cloned());
        all.push(exchange("other reports".into(), acts, ops, None, (Cuts::Never, Cuts::Never, false), true));
    } }
    run(check, "other reports while the session lasts", check.pick(1, 2), all);
    // Written in pieces against every kind of resistance.
    let mut all = vec![];
    let texts: Vec<Vec<Do>> = vec![
        vec![Do::Write(numbers(1))],
        vec![Do::Write(numbers(5)), Do::Flush],
        vec![Do::Write(numbers(3)), Do::Write(numbers(6)[3..].to_vec()), Do::Flush],
        vec![Do::WriteOnce(numbers(4)), Do::WriteOnce(numbers(3))],
        vec![Do::WriteVec(vec![numbers(2), numbers(3)]), Do::WriteVec(vec![vec![], numbers(1), vec![9, 8, 7]]), Do::Flush],
        vec![Do::WriteOnce(vec![]), Do::Write(numbers(2)), Do::WriteVec(vec![])],
        vec![Do::Write(numbers(7)), Do::Shut],
        vec![Do::Both(vec![Do::Read(2), Do::Read(3)], vec![Do::Write(numbers(5)), Do::Flush])],
    ];
    for t in &texts { for cap in [None, Some(1), Some(3)] { for stall in [false, true] {
        let mut acts = vec![Act::Data(b"in".to_vec()), Act::Data(b"put".to_vec())];
        for _ in 0..(if cap.is_some() { 12 } else { 3 }) { acts.push(Act::TakeData(4)); }
        let ops = t.clone();
        all.push(exchange(format!("write, room for {cap:?}{}", if stall { ", stalling" } else { "" }), acts, ops, cap, (Cuts::Some, Cuts::All, stall), false));
    } } }
    run(check, "written in pieces", check.pick(2, 3), all);
    // The remote end leaves while a write waits for room.
    let mut all = vec![];
    for cap in [1usize, 3] { for takes in 0..3 {
        let mut acts = vec![Act::TakeData(1); takes];
        acts.extend(left());
        for op in [Do::Write(numbers(9)), Do::Both(vec![Do::ReadAll(4), Do::Read(1)], vec![Do::Write(numbers(9)), Do::Flush]), Do::WriteVec(vec![numbers(3), numbers(6)])] {
            all.push(exchange(format!("room for {cap}"), acts.clone(), vec![op, Do::Write(numbers(9)), Do::Await("left"), Do::Write(b"q".to_vec()), Do::Flush, Do::Read(1), Do::Shut], Some(cap), (Cuts::Never, Cuts::Never, false), true));
        }
    } }
    run(check, "the remote end leaves while a write waits for room", check.pick(2, 3), all);
    // Larger amounts.
    let mut all = vec![];
    for n in [255usize, 256, 1024, 4096, 70000] { for buf in [1usize, 7, 4096, 100000] {
        if n / buf > check.pick(1100, 5000) { continue; }
        let mut acts = vec![Act::Data(numbers(n))];
        acts.extend(left());
        all.push(exchange("a lot".into(), acts, vec![Do::ReadAll(buf), Do::Read(1)], None, (Cuts::Never, Cuts::Never, false), true));
    } }
    for n in [100usize, 3000] { for buf in [1usize, 3, 500] {
        // Many small pieces, read while they come or at the end; many small writes against them.
        let mut acts: Vec<Act> = (0..n / 10).map(|k| Act::Data(numbers(n)[k * 10..k * 10 + 10].to_vec())).collect();
        acts.extend(left());
        all.push(exchange("many pieces".into(), acts.clone(), vec![Do::ReadAll(buf), Do::Read(1)], None, (Cuts::Never, Cuts::Never, false), true));
        let ops: Vec<Do> = (0..n / 10).map(|k| Do::Read(k % 9 + 1)).chain([Do::ReadAll(buf), Do::Read(2)]).collect();
        all.push(exchange("many pieces".into(), acts, ops, None, (Cuts::Never, Cuts::Never, false), true));
    } }
    for n in [50usize, 1000] { for cap in [None, Some(1), Some(7), Some(100)] {
        let room = cap.unwrap_or(100);
        let takes = (8 * n).div_ceil(room) + 2;
        let acts: Vec<Act> = (0..takes).flat_map(|_| [Act::TakeData(room)]).collect();
        let ops: Vec<Do> = (0..n).flat_map(|k| {
            let d: Vec<u8> = numbers(8 * n)[8 * k..8 * k + 8].to_vec();
            match k % 4 { 0 => vec![Do::Write(d)], 1 => vec![Do::Write(d), Do::Flush], 2 => vec![Do::Write(d[..3].to_vec()), Do::Write(d[3..].to_vec())], _ => vec![Do::WriteVec(vec![d[..1].to_vec(), vec![], d[1..].to_vec()])] }
        }).collect();
        all.push(exchange("many writes".into(), acts, ops, cap, (Cuts::Never, Cuts::Never, false), false));
    } }
    for n in [4096usize, 70000] { for cap in [None, Some(1000), Some(65536)] {
        let room = cap.unwrap_or(n);
        let mut acts = vec![Act::Data(numbers(300))];
        acts.extend((0..n.div_ceil(room) + 1).flat_map(|_| [Act::Data(numbers(300)), Act::TakeData(room)]));
        all.push(exchange("one long write".into(), acts.clone(), vec![Do::Write(numbers(n)), Do::Flush, Do::Read(600)], cap, (Cuts::Never, Cuts::Never, false), false));
        all.push(exchange("one long write".into(), acts, vec![Do::Both(vec![Do::Read(300), Do::Read(200)], vec![Do::Write(numbers(n)), Do::Flush])], cap, (Cuts::Never, Cuts::Never, false), false));
    } }
    run(check, "larger amounts", check.pick(0, 1), all);
}
