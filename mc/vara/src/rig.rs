//! C19: rig commands are delivered whole and in order, whatever the rig says.

use crate::commands::run;
use crate::kit::*;
use mcsched::explore::Scenario;
use mcsched::net::{self as sim, Cuts, Listen};
use mcsched::*;
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use report::Check;
use std::net::SocketAddr;

fn rig() -> SocketAddr { ([127, 0, 0, 2], 1).into() }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rig { Says(Vec<u8>), Settle, Takes, HangsUp, Closes, Fails, Await(&'static str), Raise(&'static str) }

fn shown(acts: &[Rig]) -> String {
    acts.iter().map(|a| match a { Rig::Says(b) => report::show(b), o => format!("{o:?}") }).collect::<Vec<_>>().join(", ")
}

#[derive(Clone)]
pub struct Plan {
    pub rig: Vec<Rig>,
    /// What each sender sends; `true` is transmit.
    pub senders: Vec<Vec<bool>>,
    pub queue: usize,
    pub cuts: (Cuts, Cuts, bool),
    pub cap: Option<usize>,
    /// Senders wait for everything else before each command.
    pub calm: bool,
    /// The channel stays open until this flag is raised.
    pub hold: Option<&'static str>,
}

pub fn drive(p: Plan) -> Scenario<'static> {
    let q = p.clone();
    let fails = p.rig.iter().any(|a| matches!(a, Rig::HangsUp | Rig::Closes | Rig::Fails));
    Scenario {
        name: format!("rig: {}; commands {:?}, queue {}{}{}", shown(&p.rig), p.senders, p.queue, if p.calm { ", one at a time" } else { "" }, p.cap.map(|c| format!(", room for {c}")).unwrap_or_default()),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            sim::listen(rig(), Listen::Accept);
            let w = &mut rt().world;
            w.read_cuts = p.cuts.0;
            w.write_cuts = p.cuts.1;
            w.write_stalls = p.cuts.2;
            if let Some(c) = p.cap { w.caps.push((rig(), c)); }
            let acts = p.rig.clone();
            world("rig", async move {
                let c = sim::accepted(rig(), 0).await;
                for a in acts {
                    match a {
                        Rig::Says(b) => sim::send(c, &b),
                        Rig::Settle => settle().await,
                        Rig::Takes => { let _ = sim::recv_some(c, 3).await; }
                        Rig::HangsUp => sim::far_fin(c),
                        Rig::Closes => sim::far_close(c),
                        Rig::Fails => sim::far_reset(c),
                        Rig::Await(f) => flag_raised(f).await,
                        Rig::Raise(f) => raise(f),
                    }
                }
                // From now on it only listens.
                while !sim::recv_some(c, 100).await.is_empty() {}
            });
            let p = p.clone();
            caller("program", async move {
                let stream = tokio::net::TcpStream::connect(rig()).await.expect("the rig is there");
                let (tx, rx) = tokio::sync::mpsc::channel(p.queue);
                let task = tokio::spawn(manage_rig_thread(rx, stream));
                for (i, list) in p.senders.iter().cloned().enumerate() {
                    let tx = tx.clone();
                    let (calm, hold) = (p.calm, p.hold);
                    caller(&format!("sender {i}"), async move {
                        for (k, t) in list.into_iter().enumerate() {
                            if calm { settle().await; }
                            let c = Command::SetTransmitState(if t { TransmitState::Transmit } else { TransmitState::Receive });
                            match tx.send(c).await {
                                Ok(()) => note(format!("sent {i}.{k}")),
                                Err(_) => { note(format!("refused {i}.{k}")); }
                            }
                        }
                        if let Some(f) = hold { flag_raised(f).await; settle().await; }
                        note("a sender is done");
                    });
                }
                drop(tx);
                let r = task.await;
                note(format!("rig task ends {}", match r { Ok(Ok(())) => "well", Ok(Err(_)) => "with an error", Err(_) => "badly" }));
            });
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            let ends = notes(e, "rig task ends ");
            let bytes = written(e, ctl(e));
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let mut lines: Vec<&str> = text.split(';').collect();
            let rest = lines.pop().unwrap();
            if !(rest.is_empty() || fails && matches!(rest, "T" | "R" | "TX" | "RX")) { return Err(format!("the rig receives {}", report::show(&bytes))); }
            // The commands of each sender, in order; senders may interleave.
            let total: usize = q.senders.iter().map(Vec::len).sum();
            let word = |t: &bool| if *t { "TX" } else { "RX" };
            if let Some(l) = lines.iter().find(|l| **l != "TX" && **l != "RX") { return Err(format!("the rig receives {l:?}: {}", report::show(&bytes))); }
            let want: Vec<Vec<&str>> = q.senders.iter().map(|s| s.iter().map(word).collect()).collect();
            if !interleaves(&lines, &want, fails) { return Err(format!("the commands are {want:?}, the rig receives {}", report::show(&bytes))); }
            if fails {
                if q.hold.is_some() && ends != ["with an error"] { return Err(format!("the rig has failed, but its task ends {ends:?}")); }
                if ends != ["with an error"] && !(ends == ["well"] && lines.len() == total) { return Err(format!("the rig has failed, but its task ends {ends:?} after {} of {total} commands", lines.len())); }
            } else {
                if ends != ["well"] { return Err(format!("nothing is wrong with the rig, but its task ends {ends:?}")); }
                if lines.len() != total { return Err(format!("{total} commands were accepted, the rig receives {}", report::show(&bytes))); }
                if notes(e, "refused").len() > 0 { return Err("a command is refused although the rig works".into()); }
                // The end comes only after all that was accepted, and does not wait for the rig.
                if closed(e, ctl(e)).is_none() { return Err("the serial line stays open".into()); }
            }
            Ok(())
        }),
    }
}

/// Whether `lines` is a merge of the lists (of prefixes of them, if `part`).
fn interleaves(lines: &[&str], lists: &[Vec<&str>], part: bool) -> bool {
    // What may still have to come; the order of the lists does not matter.
    let mut left: std::collections::HashSet<Vec<&[&str]>> = [lists.iter().map(|l| &l[..]).filter(|l| !l.is_empty()).collect()].into();
    for l in lines {
        left = left.iter().flat_map(|p| (0..p.len()).filter(|i| p[*i].first() == Some(l)).map(|i| {
            let mut q = p.clone();
            q[i] = &q[i][1..];
            q.retain(|l| !l.is_empty());
            q.sort();
            q
        }).collect::<Vec<_>>()).collect();
    }
    left.iter().any(|p| part || p.is_empty())
}

fn sequences(n: usize) -> Vec<Vec<bool>> { (0..=n).flat_map(|n| (0..1usize << n).map(move |b| (0..n).map(|k| b >> k & 1 == 1).collect())).collect() }

pub fn c19(check: &Check) {
    let base = |rig: Vec<Rig>, senders: Vec<Vec<bool>>| Plan { rig, senders, queue: 1, cuts: (Cuts::Never, Cuts::Never, false), cap: None, calm: false, hold: None };
    let says = |b: &[u8]| Rig::Says(b.to_vec());
    // A silent rig, every way of writing.
    let mut all = vec![];
    for s in sequences(4) {
        for queue in [1, 3] { all.push(drive(Plan { queue, cuts: (Cuts::Never, Cuts::All, true), ..base(vec![], vec![s.clone()]) })); }
        for cap in [1, 2, 4] { all.push(drive(Plan { cap: Some(cap), ..base(vec![], vec![s.clone()]) })); }
    }
    run(check, "a silent rig, every way of writing", check.pick(3, 4), all);
    let mut all = vec![];
    for s in [vec![vec![true], vec![false]], vec![vec![true, false], vec![true]], vec![vec![true, false], vec![false, true]], vec![vec![true], vec![false], vec![true]]] {
        for queue in [1, 2] { all.push(drive(Plan { queue, cuts: (Cuts::Never, Cuts::Some, true), ..base(vec![says(b"ID017;")], s.clone()) })); }
    }
    run(check, "several senders", check.pick(3, 4), all);
    // All short things a rig may say, in all pieces.
    let alphabet: [u8; 7] = [b';', b'I', b'X', 0xff, 0xc3, 0xa9, 0];
    let mut texts: Vec<Vec<u8>> = vec![vec![]];
    for n in 1..=check.pick(3, 4) {
        for i in 0..alphabet.len().pow(n as u32) { texts.push((0..n).map(|k| alphabet[i / alphabet.len().pow(k as u32) % alphabet.len()]).collect()); }
    }
    texts.extend([b";;;;;".to_vec(), b"IF00014200000;;ID017;;TX".to_vec(), b"?;?;?;".to_vec(), b"RX;TX;RX;".to_vec(), "\u{e9}\u{1f4fb};\u{e9};".as_bytes().to_vec(), vec![0xff; 40], [vec![b'A'; 70], vec![b';', 0xe9]].concat(), vec![b';'; 100]]);
    check.note("texts", texts.len());
    let mut all = vec![];
    for t in &texts {
        let p = base(vec![says(t)], vec![vec![true, false]]);
        all.push(drive(Plan { calm: true, rig: vec![says(t), Rig::Settle], ..p.clone() }));
        for k in 0..t.len() {
            if t.len() > 12 && k % 7 != 1 { continue; }
            let pieces = vec![says(&t[..k]), Rig::Settle, says(&t[k..]), Rig::Settle, says(b"ID;")];
            all.push(drive(Plan { calm: true, rig: pieces.clone(), ..p.clone() }));
            if k > 0 && t.len() <= 12 { all.push(drive(Plan { rig: pieces, ..p.clone() })); }
        }
    }
    run(check, "all short things a rig may say", 0, all);
    let mut all = vec![];
    for t in [&b";"[..], b";;", b"ID017;", b"ID017;;", b"\xff;", b"\xc3\xa9;\xc3", b"TX;RX", b"", b";A;", b"IF00014200000;;ID017;;TX"] {
        for s in [vec![], vec![true], vec![true, false], vec![false, true, false]] {
            all.push(drive(Plan { cuts: (Cuts::All, Cuts::Some, false), ..base(vec![says(t)], vec![s.clone()]) }));
            all.push(drive(Plan { cuts: (Cuts::Some, Cuts::Some, true), calm: true, cap: Some(2), ..base(vec![says(t), Rig::Takes, says(t), Rig::Takes, Rig::Settle, says(t)], vec![s.clone()]) }));
        }
    }
    run(check, "a talking rig, reads and writes cut", check.pick(3, 4), all);
    // The rig goes away.
    let mut all = vec![];
    for end in [Rig::HangsUp, Rig::Closes, Rig::Fails] {
        for before in [vec![], vec![says(b"ID")], vec![says(b"ID017;")], vec![says(b";\xff")], vec![Rig::Takes], vec![Rig::Takes, says(b";")], vec![Rig::Takes, Rig::Takes, Rig::Settle]] {
            for quiet in [false, true] {
                for s in [vec![], vec![true], vec![true, false], vec![true, false, true]] {
                    let mut acts = before.clone();
                    if acts.iter().filter(|a| **a == Rig::Takes).count() > s.len() { continue; }
                    if quiet { acts.push(Rig::Settle); }
                    acts.push(end.clone());
                    acts.push(Rig::Raise("gone"));
                    for hold in [None, Some("gone")] { for cap in [None, Some(2)] {
                        all.push(drive(Plan { hold, cap, cuts: (Cuts::Never, Cuts::Some, false), ..base(acts.clone(), vec![s.clone()]) }));
                    } }
                    all.push(drive(Plan { hold: Some("gone"), calm: true, ..base(acts.clone(), vec![s.clone()]) }));
                }
            }
        }
    }
    run(check, "the rig goes away", check.pick(3, 4), all);
    // Many commands, and a rig that talks and talks.
    let mut all = vec![];
    let pattern = |n: usize, k: usize| -> Vec<bool> { (0..n).map(|i| (i * i / k + i) % 3 != 1).collect() };
    for n in [10, 33, 65, 100, 257, 1000] {
        for (queue, cap) in [(1, None), (4, Some(2)), (32, Some(7)), (1024, None)] {
            for calm in [false, true] {
                if calm && n > 100 { continue; }
                let talk: Vec<Rig> = (0..n.min(100)).flat_map(|i| [says(b"IF00014200000;;ID0"), Rig::Settle, says(if i % 2 == 0 { b"17;" } else { b"\xff\xe9;" })]).collect();
                all.push(drive(Plan { queue, cap, calm, ..base(talk.clone(), vec![pattern(n, 2)]) }));
                all.push(drive(Plan { queue, cap, calm, ..base(vec![], vec![pattern(n, 3)]) }));
            }
        }
    }
    for n in [5, 20, 50] {
        for queue in [1, 8] { all.push(drive(Plan { queue, ..base(vec![says(&b";ID017;".repeat(n))], vec![pattern(n, 2), pattern(n, 5)]) })); }
    }
    for n in [20, 60] { all.push(drive(Plan { queue: 3, ..base(vec![], (0..n).map(|i| vec![i % 3 == 0]).collect()) })); }
    for t in [vec![b'A'; 5000], vec![b';'; 5000], b"ID017;".repeat(900), vec![0xff; 5000], [vec![0xe2; 4095], b";ID;".to_vec()].concat()] {
        for k in [0, 1, 64, 100, 1024, 4095] {
            all.push(drive(Plan { calm: true, ..base(vec![says(&t[..k]), Rig::Settle, says(&t[k..]), Rig::Settle, says(b";")], vec![vec![true, false, true]]) }));
        }
    }
    run(check, "many commands, and a rig that talks much", 0, all);
}
