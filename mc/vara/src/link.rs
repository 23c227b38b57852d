//! C14: losing the modem's control connection; C18: dropping the modem handle.

use crate::commands::{run, Ask};
use crate::kit::*;
use crate::user::*;
use mcsched::explore::Scenario;
use mcsched::net::Cuts;
use mcsched::*;
use report::Check;

/// How the link is lost.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault { name: &'static str, acts: Vec<Act> }

pub fn faults() -> Vec<Fault> {
    let f = |name, acts: Vec<Act>| Fault { name, acts };
    let raw = |b: &[u8]| Act::Say(b.to_vec());
    vec![
        f("close", vec![Act::CloseControl]),
        f("reset", vec![Act::ResetControl]),
        f("fin", vec![Act::FinControl]),
        f("junk", vec![say("GARBAGE|")]),
        f("junk and more", vec![say("GARBAGE|BUFFER 3|OK|OK|")]),
        f("non-text junk", vec![raw(b"\xff\xfe\x80\r")]),
        f("almost an answer", vec![say("OKAY|")]),
        f("junk in two pieces", vec![say("GARB"), Act::Settle, say("AGE|")]),
        f("half a line, close", vec![say("BUFFE"), Act::CloseControl]),
        f("half an answer, later reset", vec![say("O"), Act::Settle, Act::ResetControl]),
        f("half an answer, fin", vec![say("OK"), Act::FinControl]),
        f("report, close", vec![say("BUFFER 12|PTT ON|"), Act::CloseControl]),
        f("report, later fin", vec![say("IAMALIVE|"), Act::Settle, Act::FinControl]),
        f("bad number", vec![say("BUFFER 99999999999999999999999|")]),
        f("bad callsign", vec![say("CONNECTED KC1GSL|")]),
    ]
}

/// A history that a fault is planted into.
pub struct Base {
    name: &'static str,
    pub script: Vec<Act>,
    /// Each user is a task; the first one's operations after the loss come last.
    ops: Vec<Do>,
    cap: Option<usize>,
}

fn later() -> Vec<Do> {
    vec![Do::Cmd(Ask::Call), Do::Cmd(Ask::Bw500), Do::Connect, Do::Drop, Do::Cmd(Ask::Disconnect), Do::Cmd(Ask::Abort)]
}
fn after_loss(mut ops: Vec<Do>) -> Vec<Do> {
    ops.extend([Do::Await("lost"), Do::Settle]);
    ops.extend(later());
    ops
}
/// What is still done with an open session.
fn open_after_loss() -> Vec<Do> {
    vec![Do::Await("lost"), Do::Settle, Do::ReadAll(8), Do::Read(4), Do::Write(b"tail".to_vec()), Do::WriteVec(vec![b"ab".to_vec(), b"cd".to_vec()]), Do::Flush, Do::Shut, Do::Read(1), Do::Write(b"x".to_vec())]
}

pub fn bases() -> Vec<Base> {
    let up = || vec![Act::Take, say("OK|"), say("PENDING|"), say("BUFFER 0|CONNECTED KC1GSL W1AW|")];
    let mut v = vec![];
    let mut b = |name, script: Vec<Act>, ops: Vec<Do>, cap: Option<usize>| v.push(Base { name, script, ops, cap });
    let chain = |parts: Vec<Vec<Do>>| -> Vec<Do> { parts.into_iter().flatten().collect() };
    b("idle", vec![say("IAMALIVE|"), say("BUFFER 7|")], after_loss(vec![]), None);
    b("watching the PTT", vec![say("PTT ON|")], after_loss(vec![Do::Ptt, Do::Ptt]), None);
    b("one command", vec![Act::Take, say("OK|")], after_loss(vec![Do::Cmd(Ask::Call)]), None);
    b("commands in turn", vec![Act::Take, say("OK|"), Act::Take, say("WRONG|"), Act::Take, say("BUFFER 1|OK|")], after_loss(vec![Do::Cmd(Ask::Calls), Do::Cmd(Ask::CompOff), Do::Cmd(Ask::Bw2300)]), None);
    b("an abandoned command", vec![Act::Take, say("OK|")], after_loss(vec![Do::GiveUp(Ask::Call, 1), Do::Cmd(Ask::Bw500)]), None);
    b("connecting", up(), after_loss(vec![Do::Connect, Do::Drop]), None);
    b("connecting fails", vec![Act::Take, say("OK|"), say("DISCONNECTED|")], after_loss(vec![Do::Connect, Do::Drop]), None);
    let mut s = up();
    s.extend([Act::Data(b"hello".to_vec()), Act::Data(b"world".to_vec())]);
    b("reading", s.clone(), chain(vec![vec![Do::Connect, Do::ReadAll(3), Do::Read(4)], open_after_loss(), vec![Do::Drop], later()]), None);
    b("not reading", s.clone(), chain(vec![vec![Do::Connect], open_after_loss(), vec![Do::Drop], later()]), None);
    s.push(say("DISCONNECTED|"));
    b("the remote end leaves", s, chain(vec![vec![Do::Connect, Do::ReadAll(3), Do::Read(4)], open_after_loss(), vec![Do::Drop], later()]), None);
    let mut s = up();
    s.extend([Act::TakeData(2), Act::TakeData(2), Act::TakeData(4)]);
    b("writing against backpressure", s.clone(), chain(vec![vec![Do::Connect, Do::Write(b"0123456789abcdef0123456789".to_vec()), Do::Flush], open_after_loss(), vec![Do::Drop], later()]), Some(4));
    s.insert(5, Act::Data(b"news".to_vec()));
    b("reading and writing", s, chain(vec![vec![Do::Connect, Do::Both(vec![Do::ReadAll(3), Do::Read(2)], vec![Do::Write(b"0123456789abcdef".to_vec()), Do::Flush])], open_after_loss(), vec![Do::Drop], later()]), Some(4));
    for end in [Do::Disconnect, Do::Abort, Do::Drop] {
        let mut s = up();
        s.extend([Act::Take, say("OK|"), say("DISCONNECTED|")]);
        let name = match end { Do::Disconnect => "disconnecting", Do::Abort => "aborting", _ => "dropping the session" };
        b(name, s.clone(), after_loss(vec![Do::Connect, Do::Settle, end.clone()]), None);
        s.extend([Act::Take, say("OK|"), say("CONNECTED KC1GSL W1AW|")]);
        let name = match end { Do::Disconnect => "reconnecting after a disconnect", Do::Abort => "reconnecting after an abort", _ => "reconnecting after dropping the session" };
        b(name, s, after_loss(vec![Do::Connect, end.clone(), Do::Connect, Do::Read(1), Do::Drop]), None);
        if end == Do::Drop {
            let mut s = up();
            s.extend([Act::Take, say("OK|"), say("DISCONNECTED|")]);
            b("dropping session and handle", s, vec![Do::Connect, Do::Drop, Do::DropTnc], None);
        }
    }
    b("dropping the handle", vec![Act::Take, say("OK|")], vec![Do::GiveUp(Ask::Call, 1), Do::DropTnc], None);
    b("dropping the idle handle", vec![say("IAMALIVE|")], vec![Do::DropTnc], None);
    v
}

/// Plants a fault at position `at` of the modem's script.
pub fn lost(base: &Base, at: usize, fault: &Fault, quiet: bool) -> Scenario<'static> {
    let mut script = base.script[..at].to_vec();
    if quiet { script.push(Act::Settle); }
    script.extend(fault.acts.iter().cloned());
    script.push(Act::Raise("lost"));
    let before = &base.script[..at];
    let answers: Vec<bool> = before.iter().filter_map(|a| match a { Act::Say(b) => Some(b), _ => None }).flat_map(|b| {
        let s = String::from_utf8_lossy(b).into_owned();
        s.split('\r').filter_map(|l| match l { "OK" => Some(true), "WRONG" => Some(false), _ => None }).collect::<Vec<_>>()
    }).collect();
    // What the modem says in the very batch that ends in garbage does not count as said before the loss.
    let surely = if quiet { answers.len() } else { 0 };
    let connected = before.iter().any(|a| matches!(a, Act::Say(b) if String::from_utf8_lossy(b).contains("\rCONNECTED ") || b.starts_with(b"CONNECTED ")));
    let reconnects = base.ops.iter().filter(|o| **o == Do::Connect).count() - base.ops.ends_with(&later()) as usize;
    let delivered: Vec<u8> = before.iter().flat_map(|a| match a { Act::Data(d) => d.clone(), _ => vec![] }).collect();
    let remote_left = before.iter().any(|a| *a == say("DISCONNECTED|"));
    let ops = base.ops.clone();
    let ops2 = ops.clone();
    let cap = base.cap;
    let mode = format!("{}{}", fault.name, if quiet { ", all quiet" } else { "" });
    Scenario {
        name: format!("{}: modem does {} of {} acts, then {mode}", base.name, at, base.script.len()),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Never, false);
            if let Some(c) = cap { rt().world.caps.push((data(), c)); }
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
        }),
        judge: Box::new(move |e| {
            finished(e, "user")?;
            all_finished(e)?;
            if closed(e, ctl(e)).is_none() { return Err("the control connection stays open".into()); }
            let mut told = vec![]; // outcomes of the commands that wait for an answer, in order
            let mut after = false;
            let mut connects = 0;
            let mut in_session = false;
            let mut read = vec![];
            let mut reading_over = false;
            for (k, op) in ops2.iter().enumerate() {
                if *op == Do::Await("lost") { after = true; }
                let r = result(e, k);
                let inside: Vec<(usize, &Do)> = match op {
                    Do::Both(a, b) => a.iter().enumerate().map(|(i, o)| (k * 100 + i, o)).chain(b.iter().enumerate().map(|(i, o)| (k * 100 + 50 + i, o))).collect(),
                    _ => vec![(k, op)],
                };
                match op {
                    Do::Cmd(_) | Do::Disconnect | Do::Abort => {
                        let Some(r) = r else { continue };
                        if after && r != "error" { return Err(format!("the link is gone, but operation {k} ({}) ends with {r}", op.short())); }
                        told.push((k, r));
                        if op.ends_session() { in_session = false; }
                    }
                    Do::Connect => {
                        let r = r.ok_or("connect has no outcome")?;
                        connects += 1;
                        if after && r != "error" { return Err(format!("the link is gone, but operation {k} (Connect) ends with {r}")); }
                        if r == "ok" && !connected { return Err("connect succeeds although the modem never reported a connection".into()); }
                        if connects == 1 && !after && connected && quiet && r != "ok" && reconnects == 1 && !remote_left { return Err(format!("the modem reported the connection, but connect ends with {r}")); }
                        in_session = r == "ok";
                        read.clear();
                        reading_over = false;
                    }
                    _ => {}
                }
                if !in_session { continue; }
                for (n, op) in inside {
                    let Some(r) = result(e, n) else { continue };
                    match op {
                        Do::Read(_) | Do::ReadAll(_) => {
                            if let Some(g) = got(r) {
                                if reading_over && !g.is_empty() { return Err(format!("operation {n}: bytes after the end of the stream")); }
                                read.extend(g.iter().copied());
                                if matches!(op, Do::ReadAll(_)) || g.is_empty() { reading_over = true; }
                            } else { reading_over = true; }
                        }
                        Do::Write(_) | Do::WriteOnce(_) | Do::WriteVec(_) | Do::Flush | Do::Shut if after => {
                            if !r.starts_with("error") { return Err(format!("the link is gone, but operation {n} ({}) ends with {r}", op.short())); }
                        }
                        Do::Drop => in_session = false,
                        _ => {}
                    }
                }
                if in_session && !delivered.starts_with(&read) { return Err(format!("reads return {}, the modem delivered {}", report::hex(&read), report::hex(&delivered))); }
            }
            // Answers given before the loss count, others cannot.
            let oks = told.iter().filter(|t| t.1 == "ok").count();
            let given = answers.iter().filter(|a| **a).count();
            if oks > given { return Err(format!("{oks} commands succeed, but the modem answered OK to {given} before the link was lost")); }
            if connects == 0 || reconnects == 0 {
                for (i, (k, r)) in told.iter().enumerate() {
                    if i < surely && !ops2.iter().any(|o| matches!(o, Do::GiveUp(..))) && (*r == "ok") != answers[i] { return Err(format!("operation {k} was answered {}, but ends with {r}", if answers[i] { "OK" } else { "WRONG" })); }
                    if i >= answers.len() && *r == "ok" { return Err(format!("operation {k} was never answered, but ends with ok")); }
                }
            }
            Ok(())
        }),
    }
}

pub fn c14(check: &Check) {
    let bases = bases();
    let (mut quick, mut more) = (vec![], vec![]);
    for b in &bases {
        for at in 0..=b.script.len() {
            for (i, f) in faults().iter().enumerate() {
                for quiet in [false, true] {
                    if i < 4 && !quiet { quick.push(lost(b, at, f, quiet)); }
                    more.push(lost(b, at, f, quiet));
                }
            }
        }
    }
    check.note("bases", bases.len());
    run(check, "every way of losing the link at every point of every history", check.pick(1, 2), more);
    run(check, "close, reset, end or garbage at every point of every history", check.pick(2, 3), quick);
    for n in [2usize, 3] {
        let mut all = vec![];
        for at in 0..=n { for f in faults() { for answered in 0..=at { all.push(crowd(n, at, answered, &f)); } } }
        run(check, &format!("{n} callers at once lose the link"), check.pick(2, 3) + 2 - n as u32, all);
    }
    let mut all = vec![];
    for n in [5usize, 10, 33, 64, 100, 300] { for at in [0, 1, n / 2, n - 1, n] { for f in faults() { for answered in [0, at / 2, at] { all.push(crowd(n, at, answered, &f)); } } } }
    run(check, "up to 300 callers at once lose the link", 0, all);
}

/// `n` callers at once; the modem takes `at` commands, answers some, and then the link is lost.
fn crowd(n: usize, at: usize, answered: usize, fault: &Fault) -> Scenario<'static> {
    let mut script = vec![Act::Take; at];
    script.extend((0..answered).map(|k| say(if k % 2 == 0 { "OK|" } else { "WRONG|" })));
    script.extend(fault.acts.iter().cloned());
    Scenario {
        name: format!("{n} callers, the modem takes {at} and answers {answered}, then {}", fault.name),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("main", async move {
                let t: Shared = std::rc::Rc::new(tnc().await);
                for i in 0..n {
                    let t = t.clone();
                    caller(&format!("caller {i}"), async move {
                        for _ in 0..2 {
                            let r = t.send_callsign(id(&format!("K{i}A"))).await;
                            note(format!("caller: {i} {}", outcome(&r)));
                        }
                    });
                }
            });
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            let told = notes(e, "caller: ");
            let oks = told.iter().filter(|t| t.ends_with("ok")).count();
            if told.len() != 2 * n { return Err("a caller waits forever".into()); }
            if oks > answered.div_ceil(2) { return Err(format!("{oks} callers succeed, {} were answered OK", answered.div_ceil(2))); }
            Ok(())
        }),
    }
}

// ---- C18 -------------------------------------------------------------------------------------

/// Whether the control connection is closed only once everything written has been answered.
fn closed_in_order(e: &Ended, answers_given: usize) -> Result<(), String> {
    let Some(end) = closed(e, ctl(e)) else { return Err("the control connection stays open".into()) };
    let bytes = written(e, ctl(e));
    let lines = bytes.iter().filter(|b| **b == b'\r').count();
    if bytes.last().is_some_and(|b| *b != b'\r') { return Err(format!("the control connection is closed in the middle of a command: {}", report::show(&bytes))); }
    let ctl = ctl(e);
    let answered = e.log[..end].iter().filter_map(|ev| match ev { Event::Read { conn, data } if *conn == ctl => Some(data), _ => None }).flatten().copied().collect::<Vec<u8>>();
    let answered = answered.split(|b| *b == b'\r').filter(|l| *l == b"OK" || *l == b"WRONG").count();
    if answered < lines { return Err(format!("{lines} commands were written, but the control connection is closed after {answered} answers")); }
    if lines > answers_given { return Err(format!("{lines} commands, {answers_given} answers: harness")); }
    Ok(())
}

/// The user does `ops` and lets go of everything; the modem answers in its own time.
fn let_go(ops: Vec<Do>, script: Vec<Act>, must: Vec<&'static str>, may: Vec<&'static str>, cuts: Cuts) -> Scenario<'static> {
    let o2 = ops.clone();
    let answers = script.iter().filter(|a| matches!(a, Act::Take | Act::TakeIf)).count();
    Scenario {
        name: format!("user: {}; modem: {}", doings(&ops), shorts(&script)),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(cuts, cuts, false);
            world("modem", modem(script.clone()));
            caller("user", user(ops.clone()));
            // Somebody else, who must not be kept from working.
            caller("bystander", async { for _ in 0..3 { settle().await; } });
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            closed_in_order(e, answers)?;
            let bytes = written(e, ctl(e));
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let mut lines: Vec<&str> = text.split('\r').collect();
            lines.pop();
            let mut rest = lines.clone();
            for m in &must {
                match rest.iter().position(|l| l == m) {
                    Some(k) => { rest.remove(k); }
                    None => return Err(format!("{m} was accepted, but never written: {lines:?}")),
                }
            }
            for l in rest { if !may.contains(&l) { return Err(format!("nobody asked for {l}: {lines:?}")); } }
            let _ = &o2;
            Ok(())
        }),
    }
}

/// Ways of answering n commands: at once, slowly, in pieces, with reports around.
fn styles(n: usize) -> Vec<Vec<Act>> {
    let mut v = vec![];
    v.push((0..n).flat_map(|_| [Act::Take, say("OK|")]).collect());
    v.push((0..n).flat_map(|_| [Act::Take, Act::Settle, say("OK|")]).collect());
    v.push((0..n).map(|_| Act::Take).chain([Act::Settle]).chain((0..n).map(|k| say(if k % 2 == 0 { "WRONG|" } else { "OK|" }))).collect());
    v.push((0..n).map(|_| Act::Take).chain([Act::Settle, say(&"OK|".repeat(n))]).collect());
    v.push((0..n).map(|_| Act::Take).chain([Act::Settle]).chain((0..n).flat_map(|_| [say("O"), Act::Settle, say("K|"), Act::Settle])).collect());
    v.push((0..n).flat_map(|_| [say("BUFFER 1|"), Act::Take, Act::Settle, say("IAMALIVE|"), Act::Settle, say("PTT ON|PTT OFF|WRO"), Act::Settle, say("NG|BUSY ON|")]).collect());
    v.push((0..n).map(|_| Act::Take).chain([say("BUFF"), Act::Settle, say("ER 12|IAMAL"), Act::Settle, say(&format!("IVE|{}", "OK|".repeat(n)))]).collect());
    v
}

/// The user lets go while up to three commands, a teardown, or both are outstanding.
pub fn outstanding() -> Vec<Scenario<'static>> {
    let mut all = vec![];
    // Nothing outstanding.
    for s in [vec![], vec![say("IAMALIVE|BUFFER 3|")], vec![say("BUFF")], vec![Act::Settle, say("PTT ON|")]] { all.push(let_go(vec![Do::DropTnc], s, vec![], vec![], Cuts::Some)); }
    for s in styles(1) {
        all.push(let_go(vec![Do::Cmd(Ask::Call), Do::DropTnc], s.clone(), vec![Ask::Call.line()], vec![], Cuts::Some));
        for polls in 1..=3 {
            all.push(let_go(vec![Do::GiveUp(Ask::Call, polls), Do::DropTnc], s.clone(), vec![Ask::Call.line()], vec![], Cuts::Some));
            all.push(let_go(vec![Do::GiveUp(Ask::Call, polls), Do::Settle, Do::DropTnc], s.clone(), vec![Ask::Call.line()], vec![], Cuts::Some));
        }
    }
    for s in styles(2) {
        all.push(let_go(vec![Do::GiveUp(Ask::Call, 1), Do::Settle, Do::GiveUp(Ask::Bw500, 1), Do::Settle, Do::DropTnc], s.clone(), vec![Ask::Call.line(), Ask::Bw500.line()], vec![], Cuts::Never));
        all.push(let_go(vec![Do::GiveUp(Ask::Call, 1), Do::Settle, Do::GiveUp(Ask::Bw500, 1), Do::DropTnc], s.clone(), vec![Ask::Call.line(), Ask::Bw500.line()], vec![], Cuts::Some));
    }
    for s in styles(3) {
        all.push(let_go(vec![Do::GiveUp(Ask::Call, 1), Do::Settle, Do::GiveUp(Ask::Bw500, 1), Do::Settle, Do::GiveUp(Ask::CompText, 1), Do::DropTnc], s.clone(), vec![Ask::Call.line(), Ask::Bw500.line(), Ask::CompText.line()], vec![], Cuts::Never));
    }
    // A session's teardown is outstanding.
    for s in styles(1) {
        for end in [Do::Disconnect, Do::Abort, Do::Drop] {
            let mut script = vec![Act::Take, say("OK|CONNECTED KC1GSL W1AW|")];
            script.extend(s.clone());
            for late in ["DISCONNECTED|", "BUFFER 0|"] {
                let mut script = script.clone();
                script.push(say(late));
                let line = if end == Do::Abort { "ABORT" } else { "DISCONNECT" };
                for quiet in [false, true] {
                    let mut ops = vec![Do::Connect];
                    if quiet { ops.push(Do::Settle); }
                    ops.push(end.clone());
                    ops.push(Do::DropTnc);
                    // A refused teardown may be followed up by another.
                    let refused = script.iter().any(|a| matches!(a, Act::Say(b) if b.starts_with(b"WRO") || b.windows(5).any(|w| w == b"WRO" || w == b"WRONG")) || matches!(a, Act::Say(b) if b.ends_with(b"WRO")));
                    let may = if refused && end != Do::Drop { vec!["DISCONNECT"] } else { vec![] };
                    let mut script = script.clone();
                    if !may.is_empty() { script.extend([Act::TakeIf, say("OK|")]); }
                    all.push(let_go(ops, script, vec![Ask::Connect.line(), line], may, Cuts::Some));
                }
            }
        }
    }
    // An abandoned command and a teardown.
    for s in styles(2) {
        let mut script = vec![Act::Take, say("OK|CONNECTED KC1GSL W1AW|")];
        script.extend(s);
        all.push(let_go(vec![Do::Connect, Do::Drop, Do::GiveUp(Ask::Call, 2), Do::DropTnc], script.into_iter().map(|a| a).collect::<Vec<_>>(), vec![Ask::Connect.line(), "DISCONNECT"], vec![Ask::Call.line()], Cuts::Never));
    }
    all
}

pub fn c18(check: &Check) {
    run(check, "letting go with commands outstanding", check.pick(2, 3), outstanding());
    // Many commands outstanding.
    let mut all = vec![];
    for n in [5, 10, 33, 64, 100, 300] { for s in styles(n) { for shift in 0..3 {
        let asks: Vec<Ask> = (0..n).map(|k| [Ask::Call, Ask::Bw500, Ask::CompText, Ask::Bw2300, Ask::CompOff][(k * k / 2 + shift) % 5]).collect();
        let ops: Vec<Do> = asks.iter().flat_map(|a| [Do::GiveUp(*a, 1), Do::Settle]).chain([Do::DropTnc]).collect();
        all.push(let_go(ops, s.clone(), asks.iter().map(|a| a.line()).collect(), vec![], Cuts::Never));
    } } }
    run(check, "letting go with up to 300 commands outstanding", 0, all);
}
