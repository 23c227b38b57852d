//! C11: commands are well-formed lines; C12: every command gets its own answer.

use crate::history::{histories, Focus, MANNERS};
use crate::kit::*;
use mcsched::explore::{Family, Scenario};
use mcsched::net::Cuts;
use mcsched::*;
use plusendi::modem::vara::*;
use report::{map, Check, Violation};
use std::rc::Rc;

/// What a caller asks for, and the line the modem must receive.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ask { Call, Calls, CompOff, CompText, CompFiles, Bw500, Bw2300, Bw2750, Disconnect, Abort, Connect }
pub const ASKS: [Ask; 11] = [Ask::Call, Ask::Calls, Ask::CompOff, Ask::CompText, Ask::CompFiles, Ask::Bw500, Ask::Bw2300, Ask::Bw2750, Ask::Disconnect, Ask::Abort, Ask::Connect];

impl Ask {
    pub fn line(self) -> &'static str {
        match self {
            Ask::Call => "MYCALL KC1GSL",
            Ask::Calls => "MYCALL KC1GSL W1AW-5 N0CALL-10",
            Ask::CompOff => "COMPRESSION OFF",
            Ask::CompText => "COMPRESSION TEXT",
            Ask::CompFiles => "COMPRESSION FILES",
            Ask::Bw500 => "BW500",
            Ask::Bw2300 => "BW2300",
            Ask::Bw2750 => "BW2750",
            Ask::Disconnect => "DISCONNECT",
            Ask::Abort => "ABORT",
            Ask::Connect => "CONNECT KC1GSL W1AW",
        }
    }
    pub async fn send(self, t: &mut VaraTnc) -> bool {
        match self {
            Ask::Call => t.send_callsign(id("KC1GSL")).await.is_ok(),
            Ask::Calls => t.send_callsign(MyCallSigns(id("KC1GSL"), vec![id("W1AW-5"), id("N0CALL-10")])).await.is_ok(),
            Ask::CompOff => t.send_compression(CompressionMode::Off).await.is_ok(),
            Ask::CompText => t.send_compression(CompressionMode::Text).await.is_ok(),
            Ask::CompFiles => t.send_compression(CompressionMode::Files).await.is_ok(),
            Ask::Bw500 => t.send_bandwidth(BandwidthMode::Narrow).await.is_ok(),
            Ask::Bw2300 => t.send_bandwidth(BandwidthMode::Wide).await.is_ok(),
            Ask::Bw2750 => t.send_bandwidth(BandwidthMode::Tactical).await.is_ok(),
            Ask::Disconnect => t.send_disconnect().await.is_ok(),
            Ask::Abort => t.send_abort().await.is_ok(),
            Ask::Connect => t.connect(id("KC1GSL"), id("W1AW")).await.is_ok(),
        }
    }
}

const STATIONS: [&str; 14] = ["KC1GSL", "W1AW", "N0CALL-10", "kb1abc", "W1AW-5", "9A1A", "2E0ABC", "VE3XYZ-T", "K1A", "JA1ABCD", "w1aw-1a", "A1B2C3D4E5", "ZZ99ZZ-99", "D0X"];

fn lines(check: &Check) {
    let mut all: Vec<(Command, String)> = Vec::new();
    let up = |s: &str| s.to_uppercase();
    for n in 0..=4usize {
        let pool: Vec<&str> = if n <= 2 { STATIONS.to_vec() } else { STATIONS[..4].to_vec() };
        for i in 0..pool.len().pow(n as u32 + 1) {
            let mut i = i;
            let mut calls = vec![];
            for _ in 0..=n { calls.push(pool[i % pool.len()]); i /= pool.len(); }
            let want = format!("MYCALL {}", calls.iter().map(|c| up(c)).collect::<Vec<_>>().join(" "));
            all.push((Command::SetCall(MyCallSigns(id(calls[0]), calls[1..].iter().map(|c| id(c)).collect())), want));
        }
    }
    for n in 5..=120usize { for from in [0, 5] {
        let calls: Vec<&str> = (0..n).map(|k| STATIONS[(from + k * k / 3 + k) % STATIONS.len()]).collect();
        let want = format!("MYCALL {}", calls.iter().map(|c| up(c)).collect::<Vec<_>>().join(" "));
        all.push((Command::SetCall(MyCallSigns(id(calls[0]), calls[1..].iter().map(|c| id(c)).collect())), want));
    } }
    for (m, w) in [(CompressionMode::Off, "OFF"), (CompressionMode::Text, "TEXT"), (CompressionMode::Files, "FILES")] {
        all.push((Command::SetCompression(m), format!("COMPRESSION {w}")));
    }
    for (m, w) in [(BandwidthMode::Narrow, "BW500"), (BandwidthMode::Wide, "BW2300"), (BandwidthMode::Tactical, "BW2750")] {
        all.push((Command::SetBandwidth(m), w.into()));
    }
    for (m, w) in [(ListenMode::Enable, "LISTEN ON"), (ListenMode::Disable, "LISTEN OFF"), (ListenMode::CQ, "LISTEN CQ")] {
        all.push((Command::Listen(m), w.into()));
    }
    all.push((Command::Disconnect, "DISCONNECT".into()));
    all.push((Command::Abort, "ABORT".into()));
    for o in STATIONS { for t in STATIONS {
        let head = format!("CONNECT {} {}", up(o), up(t));
        let cmd = |path| Command::Connect(ConnectCommand { origin: id(o), target: id(t), path });
        all.push((cmd(ConnectPath::Direct), head.clone()));
        for d in STATIONS {
            all.push((cmd(ConnectPath::OneHop { digipeater: id(d) }), format!("{head} via {}", up(d))));
            for d2 in STATIONS {
                all.push((cmd(ConnectPath::TwoHops { first: id(d), second: id(d2) }), format!("{head} via {} {}", up(d), up(d2))));
            }
        }
    } }
    for i in [0, 3000, all.len() - 1] { check.sample(format!("{:?} -> {:?}", all[i].0, all[i].1)); }
    check.enumerate("every command as a line", all.len(), |i, _| {
        let (cmd, want) = &all[i];
        let got = report::guarded(|| cmd.to_string()).unwrap_or_else(|e| e);
        if got != *want {
            return Err(Violation { what: format!("{cmd:?} is written as {got:?}, not {want:?}"), size: want.len(), replay: map([("command", format!("{cmd:?}").into()), ("written", got.into())]) });
        }
        Ok(1)
    });
}

/// One caller, a sequence of commands, every way of cutting the writes.
fn in_sequence(asks: Vec<Ask>) -> Scenario<'static> {
    let a2 = asks.clone();
    Scenario {
        name: format!("{:?} one after the other", asks),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::All, true);
            let asks = asks.clone();
            let mut script = vec![];
            for a in &asks {
                script.push(Act::Take);
                script.push(say(if *a == Ask::Connect { "OK|DISCONNECTED|" } else { "OK|" }));
            }
            world("modem", modem(script));
            caller("caller", async move {
                let mut t = tnc().await;
                for a in asks {
                    let r = a.send(&mut t).await;
                    note(format!("caller: {}", r));
                }
            });
        }),
        judge: Box::new(move |e| {
            finished(e, "caller")?;
            let mut want = String::new();
            for a in &a2 { want += a.line(); want += "\r"; }
            let got = written(e, ctl(e));
            if got != want.as_bytes() { return Err(format!("the control connection carries {}, not {}", report::show(&got), report::show(want.as_bytes()))); }
            for (a, r) in a2.iter().zip(notes(e, "caller: ")) {
                if (r == "true") == (*a == Ask::Connect) { return Err(format!("{a:?} was {}", if r == "true" { "successful though the attempt failed" } else { "reported as failed though it was answered OK" })); }
            }
            Ok(())
        }),
    }
}

/// Several callers at once; each sends its commands in order.
fn at_once(callers: Vec<Vec<&'static str>>, give_up: Option<(usize, usize)>) -> Scenario<'static> {
    let c2 = callers.clone();
    Scenario {
        name: format!("callers {callers:?} at once{}", give_up.map(|(c, n)| format!(", caller {c} gives up after {n} polls")).unwrap_or_default()),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Never, Cuts::Some, true);
            let n: usize = callers.iter().map(Vec::len).sum();
            world("modem", modem((0..n).flat_map(|_| [Act::Take, say("OK|")]).collect()));
            let callers = callers.clone();
            caller("main", async move {
                let t: Shared = Rc::new(tnc().await);
                for (i, c) in callers.into_iter().enumerate() {
                    let t = t.clone();
                    let polls = give_up.filter(|g| g.0 == i).map_or(usize::MAX, |g| g.1);
                    caller(&format!("caller {i}"), async move {
                        give_up_after(polls, async { for s in c { let _ = t.send_callsign(id(s)).await; } }).await;
                    });
                }
                drop(t);
            });
        }),
        judge: Box::new(move |e| {
            let bytes = written(e, ctl(e));
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let mut got: Vec<&str> = text.split('\r').collect();
            if got.pop() != Some("") { return Err(format!("the control connection carries {}, whose last line is not ended", report::show(&bytes))); }
            for (i, c) in c2.iter().enumerate() {
                let mine: Vec<&str> = got.iter().copied().filter(|l| l.strip_prefix("MYCALL ").is_some_and(|s| c.contains(&s))).collect();
                let want: Vec<String> = c.iter().map(|s| format!("MYCALL {s}")).collect();
                let may_stop = give_up.is_some_and(|g| g.0 == i);
                if mine != want && !(may_stop && want.starts_with(&mine.iter().map(|s| s.to_string()).collect::<Vec<_>>())) {
                    return Err(format!("caller {i} asked for {want:?}, the control connection carries {got:?}"));
                }
                got.retain(|l| !mine.contains(l));
            }
            if !got.is_empty() { return Err(format!("nobody asked for {got:?}")); }
            Ok(())
        }),
    }
}

pub fn c11(check: &Check) {
    lines(check);
    let mut one = vec![];
    for a in ASKS { one.push(in_sequence(vec![a])); }
    run(check, "one command, every cut of its writes", check.pick(2, 3), one);
    let mut two = vec![];
    for a in ASKS { for b in ASKS { two.push(in_sequence(vec![a, b])); } }
    run(check, "two commands in sequence, every cut of their writes", check.pick(1, 2), two);
    let mut three = vec![];
    for a in ASKS { for b in ASKS { for c in ASKS { three.push(in_sequence(vec![a, b, c])); } } }
    run(check, "three commands in sequence", check.pick(0, 1), three);
    let mut many = vec![
        at_once(vec![vec!["K1A"], vec!["K1B"]], None),
        at_once(vec![vec!["K1A", "K1B"], vec!["K2A"]], None),
        at_once(vec![vec!["K1A"], vec!["K1B"], vec!["K1C"]], None),
    ];
    for polls in 1..=4 { many.push(at_once(vec![vec!["K1A", "K1B"], vec!["K2A"]], Some((0, polls)))); }
    run(check, "several callers at once", check.pick(2, 3), many);
    let mut crowd = vec![];
    for n in [4, 5, 8, 9, 16, 17, 33, 64, 65, 130, 300] { crowd.push(at_once(numbered(n, 1), None)); crowd.push(at_once(numbered(n, 3), None)); }
    for n in [5, 20, 100, 300] { for shift in 0..ASKS.len() { crowd.push(in_sequence((0..n).map(|k| ASKS[(k * 7 + shift) % ASKS.len()]).collect())); } }
    run(check, "up to 300 callers at once or commands in sequence", 0, crowd);
}

pub fn run(check: &Check, label: &str, bound: u32, scenarios: Vec<Scenario<'_>>) {
    if let Some(s) = scenarios.first() { check.sample(s.name.clone()); }
    mcsched::explore::explore_family(check, &Family { label: label.into(), bound, scenarios }, Some(crate::deadline()));
}

/// How the modem hands out its answers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// Each command is answered as it comes.
    Prompt,
    /// All commands are taken, then all answers go out in one piece.
    Batch,
    /// All commands are taken, then each answer goes out by itself.
    Late,
    /// As `Prompt`, with status reports in front of and behind each answer, in the same piece.
    Chatty,
    /// As `Late`, each answer split in two with other things happening between.
    Split,
    /// As `Batch`, followed by a line outside the vocabulary in the same piece.
    BatchThenJunk,
    /// As `Chatty`, and the last answer is withheld: a line outside the vocabulary comes instead.
    JunkInstead,
}
pub const STYLES: [Style; 7] = [Style::Prompt, Style::Batch, Style::Late, Style::Chatty, Style::Split, Style::BatchThenJunk, Style::JunkInstead];

/// The modem's part for `answers`, and how many of them it really gives.
pub fn answering(style: Style, answers: &[bool]) -> (Vec<Act>, usize) {
    let word = |a: &bool| if *a { "OK|" } else { "WRONG|" };
    let mut script = vec![];
    let take_all = |s: &mut Vec<Act>| s.extend(answers.iter().map(|_| Act::Take));
    let mut given = answers.len();
    match style {
        Style::Prompt => for a in answers { script.push(Act::Take); script.push(say(word(a))); },
        Style::Batch => { take_all(&mut script); script.push(say(&answers.iter().map(word).collect::<String>())); }
        Style::Late => { take_all(&mut script); for a in answers { script.push(say(word(a))); } }
        Style::Chatty => for a in answers {
            script.push(Act::Take);
            script.push(say(&format!("BUFFER 12|IAMALIVE|{}PTT ON|BUSY ON|", word(a))));
        },
        Style::Split => {
            take_all(&mut script);
            for a in answers {
                let w = word(a);
                script.push(say(&w[..2]));
                script.push(Act::Settle);
                script.push(say(&w[2..]));
            }
        }
        Style::BatchThenJunk => {
            take_all(&mut script);
            script.push(say(&(answers.iter().map(word).collect::<String>() + "GARBAGE 1|")));
        }
        Style::JunkInstead => {
            given -= 1;
            for (k, a) in answers.iter().enumerate() {
                script.push(Act::Take);
                script.push(if k < given { say(&format!("BUFFER 12|{}PTT ON|", word(a))) } else { say("BUFFER 12|GARBAGE 1|") });
            }
        }
    }
    (script, given)
}

pub fn own_answers(callers: Vec<Vec<&'static str>>, answers: Vec<bool>, style: Style, give_up: Option<(usize, usize)>, cuts: Cuts) -> Scenario<'static> {
    let c2 = callers.clone();
    let a2 = answers.clone();
    let (mut script, given) = answering(style, &answers);
    if give_up.is_some() { for a in &mut script { if *a == Act::Take { *a = Act::TakeIf; } } }
    Scenario {
        name: format!("callers {callers:?}, answers {answers:?} {style:?}{}", give_up.map(|(c, n)| format!(", caller {c} gives up after {n} polls")).unwrap_or_default()),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(cuts, Cuts::Never, false);
            world("modem", modem(script.clone()));
            let callers = callers.clone();
            caller("main", async move {
                let t: Shared = Rc::new(tnc().await);
                for (i, c) in callers.into_iter().enumerate() {
                    let t = t.clone();
                    let polls = give_up.filter(|g| g.0 == i).map_or(usize::MAX, |g| g.1);
                    caller(&format!("caller {i}"), async move {
                        for s in c {
                            match give_up_after(polls, t.send_callsign(id(s))).await {
                                Some(r) => note(format!("caller: {s} {}", outcome(&r))),
                                None => note(format!("caller: {s} given up")),
                            }
                        }
                    });
                }
                drop(t);
            });
        }),
        judge: Box::new(move |e| {
            let lines = taken(e);
            let told = notes(e, "caller: ");
            for (k, line) in lines.iter().enumerate() {
                let call = line.strip_prefix("MYCALL ").ok_or_else(|| format!("the modem receives {line:?}"))?;
                let want = if k < given && a2[k] { "ok" } else { "error" };
                if k >= given && style != Style::JunkInstead && style != Style::BatchThenJunk { continue; }
                let Some(got) = told.iter().find_map(|t| t.strip_prefix(call)) else { return Err(format!("the caller of {line:?} never hears of it")) };
                if got != format!(" {want}") && got != " given up" {
                    return Err(format!("command {k}, {line:?}, was {}, but its caller is told{got}", if k >= given { "never answered" } else if a2[k] { "answered OK" } else { "answered WRONG" }));
                }
            }
            // A caller whose command did not even reach the modem cannot have been told OK.
            for t in &told {
                let call = t.split(' ').next().unwrap();
                if t.ends_with(" ok") && !lines.iter().any(|l| l.ends_with(call)) { return Err(format!("{call} is reported as accepted, but the modem never received it")); }
            }
            if give_up.is_none() {
                for i in 0..c2.len() { finished(e, &format!("caller {i}"))?; }
                if told.len() != c2.iter().map(Vec::len).sum::<usize>() { return Err("a caller was never told".into()); }
            }
            Ok(())
        }),
    }
}

/// One command of this kind, with another in front of it that has the opposite answer.
fn own_answer_of(ask: Ask, ok: bool, chatty: bool) -> Scenario<'static> {
    let word = |ok: bool| match (ok, chatty) { (true, false) => "OK|", (false, false) => "WRONG|", (true, true) => "BUSY ON|OK|BUSY OFF|", (false, true) => "BUFFER 1|WRONG|IAMALIVE|" };
    let mut script = vec![Act::Take, say(word(!ok)), Act::Take, say(word(ok))];
    if ask == Ask::Connect && ok { script.push(say("CONNECTED KC1GSL W1AW|")); }
    Scenario {
        name: format!("{ask:?} answered {}", word(ok)),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            network(Cuts::Some, Cuts::Never, false);
            world("modem", modem(script.clone()));
            caller("caller", async move {
                let mut t = tnc().await;
                let first = t.send_callsign(id("KC1GSL")).await.is_ok();
                note(format!("first: {first}"));
                let second = ask.send(&mut t).await;
                note(format!("second: {second}"));
            });
        }),
        judge: Box::new(move |e| {
            finished(e, "caller")?;
            for (name, want) in [("first: ", !ok), ("second: ", ok)] {
                if notes(e, name) != [want.to_string()] { return Err(format!("the {name}command was answered {}, its caller is told {:?}", if want { "OK" } else { "WRONG" }, notes(e, name))); }
            }
            Ok(())
        }),
    }
}

/// This many callers with so many commands each.
pub fn numbered(n: usize, each: usize) -> Vec<Vec<&'static str>> {
    let letter = |k: usize| (b'A' + k as u8) as char;
    (0..n).map(|k| (0..each).map(|j| &*Box::leak(format!("K{k}{}", letter(j)).into_boxed_str())).collect()).collect()
}

fn patterns(n: usize) -> impl Iterator<Item = Vec<bool>> { (0..1usize << n).map(move |b| (0..n).map(|k| b >> k & 1 == 1).collect()) }

pub fn c12(check: &Check) {
    let groups: [Vec<Vec<&'static str>>; 4] = [
        vec![vec!["K1A"], vec!["K2A"]],
        vec![vec!["K1A", "K1B"], vec!["K2A"]],
        vec![vec!["K1A"], vec!["K2A"], vec!["K3A"]],
        vec![vec!["K1A", "K1B", "K1C"]],
    ];
    for (g, group) in groups.iter().enumerate() {
        let n: usize = group.iter().map(Vec::len).sum();
        let mut all = vec![];
        for style in STYLES {
            // One caller waits for each answer before it goes on.
            if group.len() < n && matches!(style, Style::Batch | Style::Late | Style::Split | Style::BatchThenJunk) { continue; }
            for p in patterns(n) { all.push(own_answers(group.clone(), p, style, None, Cuts::Some)); }
        }
        run(check, &format!("answers to {group:?}"), check.pick(if g == 0 { 3 } else { 2 }, if g == 0 { 4 } else { 3 }), all);
    }
    let mut all = vec![];
    for polls in 1..=4 {
        for who in 0..2 {
            for style in [Style::Prompt, Style::Chatty, Style::Late, Style::JunkInstead] {
                for p in patterns(2) { all.push(own_answers(vec![vec!["K1A"], vec!["K2A"]], p, style, Some((who, polls)), Cuts::Never)); }
            }
            for p in patterns(3) { all.push(own_answers(vec![vec!["K1A", "K1B"], vec!["K2A"]], p, Style::Prompt, Some((who, polls)), Cuts::Never)); }
        }
    }
    run(check, "answers when a caller gives up waiting", check.pick(2, 3), all);
    // Every way of cutting the answer stream.
    let mut all = vec![];
    for style in STYLES { for p in patterns(2) { all.push(own_answers(vec![vec!["K1A"], vec!["K2A"]], p, style, None, Cuts::All)); } }
    run(check, "answers arriving in every segmentation", check.pick(2, 3), all);
    // Many at once.
    let mut all = vec![];
    for n in [4usize, 5, 6, 8, 9, 16, 17, 33, 64, 65, 130, 300] {
        for style in STYLES {
            if n > 20 && style == Style::Split { continue; }
            for odd in 2..5usize { all.push(own_answers(numbered(n, 1), (0..n).map(|k| (k * 5 + k / 3) % odd != 0).collect(), style, None, Cuts::Never)); }
        }
    }
    run(check, "up to 300 callers at once", 0, all);
    // Each kind of command.
    let mut all = vec![];
    for a in ASKS { for ok in [true, false] { for chatty in [false, true] { all.push(own_answer_of(a, ok, chatty)); } } }
    run(check, "every kind of command accepted and refused", check.pick(2, 4), all);
    for (len, bound) in check.pick(vec![(1, 2), (2, 1), (3, 1)], vec![(1, 4), (2, 3), (3, 2)]) { run(check, &format!("every history of {len} steps"), bound, histories(Focus::Answers, len, &MANNERS, Cuts::Never)); }
    run(check, "long histories", 0, crate::history::long_histories(Focus::Answers, check.pick(9, 27)));
}
