//! C26 on the whole program: modem, remote station, rig and operator take half a day for everything.

use crate::server::Family;
use crate::world::*;
use crate::{ptt, show};
use mcsched::net::Cuts;
use report::Tier;
use std::time::Duration;

/// Everything a part does, it does after a long time.
fn slowly(acts: Vec<Act>) -> Vec<Act> {
    acts.into_iter().flat_map(|a| if matches!(a, Act::Take | Act::Explore | Act::Settle | Act::Look(_) | Act::Serve) { vec![a] } else { vec![Act::Settle, a] }).collect()
}

pub fn c26(tier: Tier) -> Vec<Family> {
    mcsched::wait_long(Duration::from_secs(12 * 3600));
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    let mut v = vec![];
    for (b, a) in [("hi|BBS>|", "ok|bye|"), ("BBS>|", ""), ("|a>|", "x|"), ("BBS>|now|", "x"), ("no prompt|", "")] { for end in show::losses() {
        // A modem that never says that the session is over is waited for.
        if matches!(end[..], [Act::CloseData] | [Act::ResetData]) { continue; }
        for op in [vec![Act::Asked, Act::Settle, Act::Type("\n"), Act::Asked, Act::Settle, Act::EndInput], vec![Act::Settle, Act::Type("go"), Act::Settle, Act::Type("\n"), Act::Settle, Act::Settle, Act::EndInput]] {
            let mut p = show::Plan::new(slowly(show::exchange(vec![text(b)], if a.is_empty() { vec![] } else { vec![text(a)] }, end.clone())));
            p.operator = op;
            v.push(show::scenario(p));
        }
    } }
    for k in 0..4 { for how in [say("WRONG|"), Act::CloseControl, say("?|")] {
        let mut m: Vec<Act> = opening()[..2 * k + 1].to_vec();
        m.extend([how, Act::Serve]);
        v.push(show::scenario(show::Plan::new(slowly(m))));
    } }
    out.push(Family { label: "program, everybody is slow", bound: if t { 2 } else { 1 }, scenarios: v });
    let mut v = vec![];
    for seq in [vec![true], vec![true, false], vec![false, true], vec![true, false, true]] { for (rig, cap) in [(vec![], None), (slowly(vec![Act::RigSays(b"ID0".to_vec()), Act::RigSays(b"17;".to_vec())]), None), (slowly(vec![Act::RigTakes(1); 30]), Some(1)), (slowly(vec![Act::RigTakes(2); 20]), Some(2))] {
        for end in [vec![say("DISCONNECTED|"), Act::Serve], vec![Act::CloseControl]] {
            let mut m = opening();
            m.extend(seq.iter().map(|on| ptt::ptt(*on)));
            m.push(Act::Settle);
            // A rig that stalls may not be through yet.
            if cap.is_none() { m.push(Act::Look("quiet")); }
            m.push(text("hi>|"));
            m.extend(end);
            v.push(ptt::scenario(ptt::Plan { modem: slowly(m), rig: rig.clone(), operator: ptt::operator(), cuts: (Cuts::Never, Cuts::Never, false), rig_cap: cap }));
        }
    } }
    out.push(Family { label: "program, reports far apart, a rig that stalls for long", bound: if t { 2 } else { 1 }, scenarios: v });
    out
}
