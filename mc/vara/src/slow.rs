//! C26: the other side may take half a day for everything.

use crate::commands::{own_answers, run, Style};
use crate::history::*;
use crate::kit::*;
use crate::rig::{drive, Plan, Rig};
use crate::session::*;
use crate::user::Do;
use crate::{link, status};
use mcsched::net::Cuts;
use report::Check;
use std::time::Duration;

pub const LONG: Duration = Duration::from_secs(12 * 3600);

pub fn c26(check: &Check) {
    mcsched::wait_long(LONG);
    check.assume("Time is virtual; whoever waits (modem, remote station, rig, user) does so for 12 hours.");
    let slow = [Manner::Slow, Manner::Late];
    for (len, bound) in check.pick(vec![(1, 2), (2, 1)], vec![(1, 3), (2, 2), (3, 1)]) {
        run(check, &format!("every history of {len} steps, every answer late"), bound, histories(Focus::All, len, &slow, Cuts::Never));
        run(check, &format!("a session with traffic after every history of {len} steps, every answer late"), bound.min(1), talks(len, &slow, Cuts::Never));
    }
    let all = attempts();
    let (mut one, mut two) = (vec![], vec![]);
    for first in rounds_of(&all, &ENDINGS, &[0, 2, 3, 5], &[true]) {
        for drop_tnc in [false, true] { one.push(series(Focus::All, vec![first.clone()], drop_tnc, Cuts::Never)); }
        for second in rounds_of(&all[..6], &[Ending::Disconnect, Ending::Drop, Ending::RemoteSeen], &[0], &[true]) { two.push(series(Focus::All, vec![first.clone(), second], false, Cuts::Never)); }
    }
    run(check, "one session, everything late", check.pick(1, 2), one);
    run(check, "two sessions, everything late", check.pick(1, 2), two);
    let mut answers = vec![];
    for style in [Style::Late, Style::Chatty, Style::Split] { for give_up in [None, Some((0, 1)), Some((1, 2))] { for k in 0..4 {
        answers.push(own_answers(vec![vec!["K1A"], vec!["K2A"]], vec![k & 1 == 1, k & 2 == 2], style, give_up, Cuts::Never));
    } } }
    run(check, "two callers, late answers", check.pick(1, 2), answers);
    run(check, "letting go with commands outstanding, late answers", check.pick(1, 2), link::outstanding());
    let mut lost = vec![];
    for b in &link::bases() { for at in 0..=b.script.len() { for f in link::faults() { lost.push(link::lost(b, at, &f, true)); } } }
    run(check, "the link is lost after a long time", check.pick(1, 2), lost);
    // Sessions that are silent for long, in either direction.
    let mut silent = vec![];
    for p in [vec![], vec![3], vec![2, 2], vec![1, 4, 1]] { for reads in 0..3 {
        let bytes = numbers(p.iter().sum());
        let mut acts = vec![Act::Await("up"), Act::Settle];
        let mut at = 0;
        for n in &p { acts.extend([Act::Data(bytes[at..at + n].to_vec()), Act::Settle]); at += n; }
        acts.extend([Act::Settle, say("DISCONNECTED|"), Act::Settle, Act::Raise("left")]);
        let ops = match reads {
            0 => vec![Do::ReadAll(2), Do::Await("left"), Do::Read(1), Do::Write(b"x".to_vec())],
            1 => vec![Do::Settle, Do::Write(b"hi".to_vec()), Do::Settle, Do::Flush, Do::Settle, Do::ReadAll(64), Do::Await("left"), Do::Flush],
            _ => vec![Do::Both(vec![Do::ReadAll(3)], vec![Do::Settle, Do::Write(b"hi".to_vec()), Do::Settle, Do::Flush]), Do::Await("left"), Do::Read(2)],
        };
        silent.push(exchange("long silences".into(), acts, ops, None, (Cuts::Never, Cuts::Never, false), true));
    } }
    for room in [1usize, 3, 5] { for op in [vec![Do::Write(numbers(9)), Do::Flush], vec![Do::WriteVec(vec![numbers(4), numbers(5)]), Do::Settle, Do::Write(numbers(2))], vec![Do::Both(vec![Do::Read(2), Do::Read(3)], vec![Do::Write(numbers(7)), Do::Flush, Do::Shut])]] {
        let mut acts = vec![Act::Settle, Act::Data(b"in".to_vec()), Act::Settle, Act::Data(b"put".to_vec())];
        for _ in 0..12 { acts.extend([Act::Settle, Act::TakeData(room)]); }
        silent.push(exchange(format!("room for {room} after long"), acts, op, Some(room), (Cuts::Never, Cuts::Never, false), false));
    } }
    run(check, "sessions with long silences, writes that wait long", check.pick(2, 3), silent);
    // Reports far apart.
    let mut far = vec![];
    for a in status::ALPHABET { for b in status::ALPHABET { far.push(status::mirrored(vec![status::joined(&[a]), status::joined(&[b])], status::watched(), Cuts::Never)); } }
    run(check, "reports far apart", 0, far);
    // A rig that stalls, or is silent.
    let mut rigs = vec![];
    for senders in [vec![vec![true]], vec![vec![true, false]], vec![vec![true, false, true], vec![false]]] { for cap in [None, Some(1), Some(2)] { for calm in [false, true] {
        let n: usize = senders.iter().map(Vec::len).sum();
        let slow: Vec<Rig> = (0..if cap.is_some() { 3 * n } else { 2 }).flat_map(|k| [Rig::Settle, if k % 3 == 2 { Rig::Says(b"ID017;".to_vec()) } else { Rig::Settle }, Rig::Takes]).collect();
        let rig = if cap.is_some() { slow } else { vec![Rig::Settle, Rig::Says(b"ID0".to_vec()), Rig::Settle, Rig::Says(b"17;".to_vec())] };
        rigs.push(drive(Plan { rig: rig.clone(), senders: senders.clone(), queue: 1, cuts: (Cuts::Never, Cuts::Never, false), cap, calm, hold: None }));
        if cap.is_none() { rigs.push(drive(Plan { rig: [rig, vec![Rig::Settle, Rig::Raise("late")]].concat(), senders: senders.clone(), queue: 1, cuts: (Cuts::Never, Cuts::Never, false), cap, calm, hold: Some("late") })); }
    } } }
    run(check, "a rig that stalls for long", check.pick(1, 2), rigs);
}
