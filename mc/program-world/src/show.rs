//! C21: the program shows the remote station's text and answers its prompt.

use crate::server::{show_failed, show_only, Exit, Family, Run, Scenario};
use crate::world::*;
use mcsched::net::Cuts;
use mcsched::*;
use report::{show, Tier};

/// The first bytes the program sends to the remote station: its identification and FF.
fn ident_like(w: &[u8]) -> Result<bool, String> {
    let start = b"[plusendi-";
    let n = w.len().min(start.len());
    if w[..n] != start[..n] { return Err(format!("the program sends {}", show(w))); }
    match w.iter().position(|b| *b == b'\r') {
        None => Ok(false),
        Some(k) => {
            if !w[..k].ends_with(b"-B2FWIHJM$]") { return Err(format!("the program identifies itself as {}", show(&w[..k]))); }
            let rest = &w[k + 1..];
            if rest.len() > 3 || *rest != b"FF\r"[..rest.len()] { return Err(format!("after its identification the program sends {}", show(rest))); }
            Ok(rest.len() == 3)
        }
    }
}

fn lines_of(d: &[u8]) -> Vec<&[u8]> {
    let mut v: Vec<&[u8]> = d.split(|b| *b == b'\r').collect();
    v.pop();
    v
}
fn shown_as(lines: &[&[u8]]) -> Vec<u8> {
    lines.iter().flat_map(|l| (String::from_utf8_lossy(l).into_owned() + "\n").into_bytes()).collect()
}

pub const SETUP: [&str; 4] = ["MYCALL KC1GSL", "COMPRESSION TEXT", "BW2300", "CONNECT KC1GSL W1AW"];

pub fn judge(run: &Run) -> Result<Exit, String> {
    let e = &run.ended;
    let (ctl, dat) = (conn_of(e, control()), conn_of(e, data()));
    // The modem is set up, in whatever order, before it is asked to connect.
    let said = written(e, ctl);
    let mut open = SETUP[..3].to_vec();
    for (k, line) in lines_of(&said).iter().enumerate() {
        let line = String::from_utf8_lossy(line);
        if k < 3 {
            match open.iter().position(|s| *s == line) {
                Some(i) => { open.remove(i); }
                None => return Err(format!("the program's command {} is {line}, where it should be one of {open:?}", k + 1)),
            }
        }
        else if k == 3 { if line != SETUP[3] { return Err(format!("the program's command {} is {line}, not {}", k + 1, SETUP[3])); } }
        else if line != "DISCONNECT" && line != "ABORT" { return Err(format!("the program's command {} is {line}", k + 1)); }
    }
    let at = |f: &dyn Fn(&Event) -> bool| e.log.iter().position(f);
    let sent_on = |c: Option<usize>, what: &[u8]| e.log.iter().position(|ev| matches!(ev, Event::Sent { conn, data } if Some(*conn) == c && data.windows(what.len()).any(|w| w == what)));
    let up = sent_on(ctl, b"CONNECTED KC1GSL W1AW\r");
    let left = sent_on(ctl, b"DISCONNECTED\r");
    let lost = at(&|ev| matches!(ev, Event::Ended { conn, .. } if Some(*conn) == ctl || Some(*conn) == dat)).into_iter().chain(sent_on(ctl, b"?\r")).min();
    if up.is_some() && lines_of(&said).len() < 4 { return Err("the modem was not asked for a connection".into()); }
    // The remote station's text, and when each line was there.
    let text = sent(e, dat);
    let lines = lines_of(&text);
    let prompt = lines.iter().position(|l| l.ends_with(b">"));
    let all = shown_as(&lines);
    if !all.starts_with(&run.stdout) { return Err(format!("the program shows {} instead of {}", show(&run.stdout), show(&all))); }
    let mut ends = vec![0];
    for k in 1..=lines.len() { ends.push(shown_as(&lines[..k]).len()); }
    if !ends.contains(&run.stdout.len()) { return Err(format!("the program shows part of a line: {}", show(&run.stdout))); }
    // Nothing is sent before the prompt and a line from the operator's go-ahead.
    let go = at(&|ev| matches!(ev, Event::Note(s) if s == "operator's input ends" || s.starts_with("operator types") && s.contains("\\n")));
    let w = written(e, dat);
    let complete = ident_like(&w)?;
    let first = at(&|ev| matches!(ev, Event::Wrote { conn, .. } if Some(*conn) == dat));
    if let Some(first) = first {
        let delivered = |k: usize| lines_of(&sent_up_to(e, dat, k)).len();
        if prompt.map_or(true, |p| delivered(first) <= p) { return Err("the program answers before the remote station's prompt".into()); }
        if go.map_or(true, |g| g > first) { return Err("the program answers without the operator's go-ahead".into()); }
    }
    let answered = complete.then(|| e.log.iter().rposition(|ev| matches!(ev, Event::Wrote { conn, .. } if Some(*conn) == dat)).unwrap());
    if w.len() > 0 && !complete && lost.is_none() && left.is_none() { return Err(format!("the program's answer is cut short: {}", show(&w))); }
    // At quiet moments, what must have been shown is shown.
    let over = [left, lost].into_iter().flatten().min();
    for (k, ev) in e.log.iter().enumerate() {
        let Event::Mark(what, n) = ev else { continue };
        let n = *n as usize;
        let there = lines_of(&sent_up_to(e, dat, k)).len();
        let through_prompt = prompt.filter(|p| *p < there).map(|p| p + 1);
        match *what {
            "calm" => {
                if over.is_some_and(|o| o < k) || up.map_or(true, |u| u > k) { continue; }
                let must = if answered.is_some_and(|a| a < k) { there } else { through_prompt.unwrap_or(there) };
                if n < ends[must] { return Err(format!("nothing moves any more, and only {n} of {} bytes of text are shown", ends[must])); }
                if through_prompt.is_some() && go.is_some_and(|g| g < k) && !complete { return Err("the program does not answer the prompt".into()); }
            }
            "asked" => if let Some(p) = through_prompt { if n < ends[p] { return Err("the operator is asked before the prompt is shown".into()); } },
            _ => {}
        }
    }
    if lost.is_none() {
        if let (Some(u), Some(l)) = (up, left) {
            // A session over before anybody could look at it may as well never have been.
            let seen = e.log[u..l.max(u)].iter().any(|ev| matches!(ev, Event::Mark("calm", _)));
            if !seen && run.stdout.is_empty() && first.is_none() { return Ok(Exit::Any); }
            let must = match prompt { Some(p) if !answered.is_some_and(|a| a < l) => p + 1, _ => lines.len() };
            if run.stdout.len() < ends[must] { return Err(format!("the program leaves having shown {} of {}", show(&run.stdout), show(&all))); }
            if answered.is_some_and(|a| a < l) { return Ok(Exit::Zero); }
            if prompt.is_none() { return Ok(Exit::Nonzero); }
        }
    }
    if up.is_none() { return Ok(Exit::Nonzero); }
    Ok(Exit::Any)
}

/// What it shows may be cut short anywhere; the session it ends, and reports failure.
fn unshown(run: &Run) -> Result<Exit, String> {
    let e = &run.ended;
    let text = sent(e, conn_of(e, data()));
    let all = shown_as(&lines_of(&text));
    if !all.starts_with(&run.stdout) { return Err(format!("the program shows {} instead of {}", show(&run.stdout), show(&all))); }
    if !show_failed() { return Ok(Exit::Any); }
    let said = written(e, conn_of(e, control()));
    let endings = lines_of(&said).iter().filter(|l| **l == b"DISCONNECT" || **l == b"ABORT").count();
    if endings != 1 { return Err(format!("the program leaves and ends its session {endings} times")); }
    Ok(Exit::Nonzero)
}

fn sent_up_to(e: &Ended, conn: Option<usize>, k: usize) -> Vec<u8> {
    e.log[..k].iter().flat_map(|ev| match ev { Event::Sent { conn: c, data } if Some(*c) == conn => data.clone(), _ => vec![] }).collect()
}

#[derive(Clone)]
pub struct Plan {
    pub modem: Vec<Act>,
    pub operator: Vec<Act>,
    pub cuts: (Cuts, Cuts, bool),
    pub args: Vec<String>,
    pub ports: (bool, bool, bool),
}
impl Plan {
    pub fn new(modem: Vec<Act>) -> Plan { Plan { modem, operator: typing("\n"), cuts: (Cuts::Never, Cuts::Never, false), args: args(), ports: (true, true, true) } }
}
pub fn typing(t: &'static str) -> Vec<Act> { vec![Act::Asked, Act::Type(t), Act::Asked, Act::EndInput] }

pub fn scenario(p: Plan) -> Scenario {
    Scenario {
        name: format!("modem: {}; operator: {}{}{}", shorts(&p.modem), shorts(&p.operator), if p.cuts == (Cuts::Never, Cuts::Never, false) { String::new() } else { format!("; cuts {:?}", p.cuts) }, if p.ports == (true, true, true) { String::new() } else { format!("; control, data, rig there: {:?}", p.ports) }),
        args: p.args.clone(),
        setup: Box::new(move || {
            network(p.cuts.0, p.cuts.1, p.cuts.2);
            let w = &mut rt().world;
            if !p.ports.0 { w.listeners[0].1 = mcsched::net::Listen::Refuse; }
            if !p.ports.1 { w.listeners[1].1 = mcsched::net::Listen::Refuse; }
            if !p.ports.2 { w.serial.clear(); }
            hold_unless_told(&[&p.modem, &p.operator]);
            actor("modem", p.modem.clone());
            actor("operator", p.operator.clone());
        }),
        judge: Box::new(judge),
        logs: vec!["off"],
    }
}

fn calm() -> [Act; 2] { [Act::Settle, Act::Look("calm")] }

/// A whole exchange: text before, text after the answer, and how it ends.
pub fn exchange(before: Vec<Act>, after: Vec<Act>, end: Vec<Act>) -> Vec<Act> { exchange_from(opening(), before, after, end) }
fn exchange_from(mut s: Vec<Act>, before: Vec<Act>, after: Vec<Act>, end: Vec<Act>) -> Vec<Act> {
    s.extend(before);
    s.extend(calm());
    let more = !after.is_empty();
    s.extend(after);
    if more { s.extend(calm()); }
    s.extend(end);
    s.push(Act::Serve);
    s
}
pub fn leave() -> Vec<Act> { vec![say("DISCONNECTED|")] }

fn transcripts(words: &[&str], max: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in 0..=max { for i in 0..words.len().pow(n as u32) {
        let mut t = vec![];
        for k in 0..n { t.extend(bytes_of(words[i / words.len().pow(k as u32) % words.len()])); t.push(b'\r'); }
        v.push(t);
    } }
    v
}
/// `~` stands for a byte that is not text.
fn bytes_of(w: &str) -> Vec<u8> { w.bytes().map(|b| if b == b'~' { 0xff } else { b }).collect() }

fn splits(t: &[u8]) -> Vec<Vec<Act>> {
    if t.is_empty() { return vec![vec![]]; }
    let mut v = vec![vec![Act::Data(t.to_vec())]];
    for k in 1..t.len() {
        v.push(vec![Act::Data(t[..k].to_vec()), Act::Settle, Act::Data(t[k..].to_vec())]);
    }
    v
}

pub fn losses() -> Vec<Vec<Act>> {
    vec![leave(), vec![Act::CloseControl], vec![Act::ResetControl], vec![Act::FinControl], vec![say("?|")], vec![Act::CloseData], vec![Act::ResetData],
         vec![Act::CloseData, Act::CloseControl], vec![Act::ResetControl, Act::ResetData]]
}

pub fn c21(tier: Tier) -> Vec<Family> {
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    // Transcripts, cut anywhere.
    let words = ["", "A", "b>c", ">", "x y>", "\u{e9}~"];
    let mut v = vec![];
    for before in transcripts(&words, if t { 3 } else { 2 }) {
        for s in splits(&before) { v.push(scenario(Plan::new(exchange(s, vec![], leave())))); }
        // A line that is not complete before the prompt.
        let mut partial = before.clone();
        partial.extend(b"rest");
        v.push(scenario(Plan::new(exchange(vec![Act::Data(partial)], vec![text("of it>|")], leave()))));
    }
    out.push(Family { label: "text up to the prompt, cut anywhere", bound: if t { 1 } else { 0 }, scenarios: v });
    let mut v = vec![];
    for after in transcripts(&words, if t { 3 } else { 2 }) {
        for s in splits(&after) { v.push(scenario(Plan::new(exchange(vec![text("hi|BBS>|")], s, leave())))); }
        // All of it comes with the prompt.
        let all = [b"hi\rBBS>\r", &after[..]].concat();
        for k in [all.len(), 8, 7, 3] { v.push(scenario(Plan::new(exchange(if k >= all.len() { vec![Act::Data(all.clone())] } else { vec![Act::Data(all[..k].to_vec()), Act::Data(all[k..].to_vec())] }, vec![], leave())))); }
        // The last line comes in two parts around the prompt.
        let mut cut = b"BBS>\rpart".to_vec();
        v.push(scenario(Plan::new(exchange(vec![Act::Data(cut.clone())], vec![Act::Data([b"ial\r", &after[..]].concat())], leave()))));
        cut.extend(&after);
        v.push(scenario(Plan::new(exchange(vec![Act::Data(cut)], vec![text("last|")], leave()))));
    }
    out.push(Family { label: "text after the prompt, cut anywhere", bound: if t { 1 } else { 0 }, scenarios: v });
    // Every byte, at every place of a line, before and after the prompt.
    let mut v = vec![];
    for b in 0..=255u8 {
        if b == b'\r' { continue; }
        let lines = [&[b][..], b"\r", &[b], b"x\rx", &[b], b"\rx", &[b], b"x\r", &[b, b], b"\r"].concat();
        let mut first: Vec<u8> = if b == b'>' { vec![] } else { lines.clone() };
        first.extend(b"BBS>\r");
        v.push(scenario(Plan::new(exchange(vec![Act::Data(first)], vec![Act::Data(lines.clone())], leave()))));
        v.push(scenario(Plan::new(exchange(vec![Act::Data([&[b][..], b">\r"].concat())], vec![Act::Data(vec![b]), Act::Settle, Act::Data(vec![b]), Act::Data(b"\r".to_vec())], leave()))));
    }
    out.push(Family { label: "every byte in a line", bound: 0, scenarios: v });
    // Long text.
    let mut v = vec![];
    for n in [63usize, 64, 65, 1000, 5000] { for step in [7usize, 64, 100000] {
        let long: Vec<u8> = (0..n).map(|k| if k % 37 == 36 { b'\r' } else { b'a' + (k % 26) as u8 }).chain(*b"end\r").collect();
        let parts = |d: &[u8]| d.chunks(step.max(d.len() / 40)).map(|c| Act::Data(c.to_vec())).collect::<Vec<_>>();
        v.push(scenario(Plan::new(exchange(parts(&[&long[..], b"BBS>\r"].concat()), parts(&long), leave()))));
        v.push(scenario(Plan::new(exchange(parts(&[&long[..], b"BBS>\r", &long[..]].concat()), vec![], leave()))));
    } }
    // One long line.
    for n in [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 20000] { for step in [97usize, 100000] {
        if step < 1000 && n > 5000 { continue; }
        let line = |end: &[u8]| (0..n).map(|k| b'a' + (k % 26) as u8).chain(end.iter().copied()).collect::<Vec<u8>>();
        let parts = |d: &[u8]| d.chunks(step.max(d.len() / 40)).map(|c| Act::Data(c.to_vec())).collect::<Vec<_>>();
        v.push(scenario(Plan::new(exchange(parts(&line(b"\rBBS>\r")), parts(&line(b"\rx\r")), leave()))));
        v.push(scenario(Plan::new(exchange(parts(&line(b">\r")), parts(&line(b"\r")), leave()))));
    } }
    // Many short lines.
    for n in [100usize, 1000, 3000] {
        let lines: Vec<u8> = (0..n).flat_map(|k| format!("{k}\r").into_bytes()).collect();
        v.push(scenario(Plan::new(exchange(vec![Act::Data([&lines[..], b"BBS>\r"].concat())], vec![Act::Data(lines.clone())], leave()))));
    }
    out.push(Family { label: "long text", bound: if t { 1 } else { 0 }, scenarios: v });
    // Standard output cannot be written to any more.
    let mut v = vec![];
    for (b, a, lines) in [("hi|BBS>|", "ok|bye|", 4), ("hi||a|BBS>|", "", 4), ("BBS>|", "ok|", 2), ("BBS>|now|", "x|", 3)] { for k in 0..lines { for error in [libc::EPIPE, libc::ENOSPC, libc::EIO] {
        let mut m = opened();
        m.push(text(b));
        m.extend(calm());
        if !a.is_empty() { m.push(text(a)); m.extend(calm()); }
        m.extend([say("DISCONNECTED|"), Act::Serve]);
        let mut s = scenario(Plan::new(m));
        s.name += &format!("; standard output fails after {k} lines with error {error}");
        let setup = s.setup;
        s.setup = Box::new(move || { show_only(k, error); setup(); });
        s.judge = Box::new(unshown);
        v.push(s);
    } } }
    out.push(Family { label: "standard output fails", bound: if t { 2 } else { 1 }, scenarios: v });
    // Schedules.
    let mut v = vec![];
    for (b, a) in [("hi|BBS>|", "ok|bye|"), ("BBS>|", ""), ("|a>|", "x|"), ("BBS>|now|", "x"), ("no prompt|", "")] {
        for fast in [false, true] { for op in ["\n", "go\n"] {
            let mut m = exchange_from(opened(), vec![text(b)], if a.is_empty() { vec![] } else { vec![text(a)] }, leave());
            if fast { m.retain(|x| !matches!(x, Act::Settle | Act::Look(_))); }
            let mut p = Plan::new(m);
            p.operator = typing(op);
            v.push(scenario(p));
        } }
    }
    out.push(Family { label: "schedules of an exchange", bound: if t { 3 } else { 2 }, scenarios: v });
    // Operators.
    let mut v = vec![];
    for op in [vec![Act::EndInput], vec![Act::Asked, Act::EndInput], vec![Act::Type("\n"), Act::Asked, Act::EndInput], vec![Act::Asked, Act::Type("a"), Act::Settle, Act::Type("b\nc\n")],
               vec![Act::Asked, Act::Type("a"), Act::EndInput], vec![Act::Type("a\nb\n")], vec![Act::Asked, Act::Type("\r\n"), Act::Asked, Act::Type("\n")], vec![Act::Settle, Act::Settle, Act::Settle, Act::Type("\n"), Act::Settle, Act::EndInput]] {
        for (b, a) in [("hi|BBS>|", "ok|"), ("BBS>|late|", "")] { for fast in [false, true] {
            let mut m = exchange(vec![text(b)], if a.is_empty() { vec![] } else { vec![text(a)] }, leave());
            if fast { m.retain(|x| !matches!(x, Act::Settle | Act::Look(_))); }
            let mut p = Plan::new(m);
            p.operator = op.clone();
            v.push(scenario(p));
        } }
    }
    out.push(Family { label: "operators", bound: if t { 2 } else { 1 }, scenarios: v });
    // Short reads and writes.
    let mut v = vec![];
    for cuts in [(Cuts::Some, Cuts::Some, false), (Cuts::Never, Cuts::All, true), (Cuts::All, Cuts::Never, false)] {
        for (b, a) in [("hi|BBS>|", "ok|bye|"), ("BBS>|now|", "x|"), ("|>|", "||")] {
            let mut p = Plan::new(exchange(vec![text(b)], vec![text(a)], leave()));
            p.cuts = cuts;
            v.push(scenario(p));
        }
    }
    out.push(Family { label: "short reads and writes", bound: if t { 2 } else { 1 }, scenarios: v });
    // Refusals.
    let mut v = vec![];
    for k in 0..4 { for how in [vec![say("WRONG|")], vec![say("BUFFER 0|WRONG|")], vec![Act::CloseControl], vec![say("?|")], vec![Act::ResetControl], vec![Act::FinControl], vec![say("W"), Act::CloseControl], vec![Act::CloseData, Act::CloseControl]] {
        let mut m: Vec<Act> = opening()[..2 * k + 1].to_vec();
        if !t { m.insert(2 * k, Act::Explore); }
        m.extend(how);
        m.push(Act::Serve);
        v.push(scenario(Plan::new(m)));
    } }
    for how in ["OK|DISCONNECTED|", "OK|PENDING|DISCONNECTED|", "OK|PENDING|CANCELPENDING|DISCONNECTED|"] {
        let mut m: Vec<Act> = opening()[..7].to_vec();
        if !t { m.insert(6, Act::Explore); }
        m.extend([say(how), Act::Serve]);
        v.push(scenario(Plan::new(m)));
    }
    for ports in [(false, true, true), (true, false, true), (true, true, false), (false, false, false)] {
        let mut p = Plan::new(vec![Act::Serve]);
        p.ports = ports;
        v.push(scenario(p));
    }
    out.push(Family { label: "refusals", bound: if t { 3 } else { 2 }, scenarios: v });
    // The session or the modem is lost at any step.
    let mut v = vec![];
    for base in [exchange(vec![text("hi|BBS>|")], vec![text("ok|"), text("bye|")], vec![]), exchange(vec![text("hi|"), Act::Settle, text("BBS>|now|")], vec![text("x")], vec![])] {
        for how in losses() { for at in 4..base.len() { for op in [typing("\n"), vec![Act::Asked, Act::Await("lost"), Act::Type("\n"), Act::Asked, Act::EndInput]] {
            if !t && at < 9 && op != typing("\n") { continue; }
            // A modem that just never answers is not waited for here.
            let silent = matches!(how[..], [Act::CloseData] | [Act::ResetData]);
            if silent && at < 9 || how == leave() && at < 8 { continue; }
            let mut m = base[..at].to_vec();
            if op != typing("\n") { m.push(Act::Settle); }
            m.extend(how.clone());
            m.extend([Act::Raise("lost"), Act::Serve]);
            let mut p = Plan::new(m);
            p.operator = op;
            v.push(scenario(p));
        } } }
    }
    out.push(Family { label: "lost at any step", bound: if t { 2 } else { 1 }, scenarios: v });
    out
}
