//! C22 on the whole program: every execution with logging off and with everything logged.

use crate::server::{Exit, Family, Scenario};
use crate::world::*;
use crate::{ptt, show};
use mcsched::net::Cuts;
use report::Tier;

fn logged(mut s: Scenario) -> Scenario {
    s.logs = vec!["off", "trace"];
    s.judge = Box::new(|_| Ok(Exit::Any));
    s
}

pub fn c22(tier: Tier) -> Vec<Family> {
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    let texts: Vec<Vec<u8>> = vec![
        b"".to_vec(), b"\r".to_vec(), b"a>\r".to_vec(), b"\xff>\r".to_vec(), b"\xc3\xa9\xc3\xa9>\r".to_vec(), b"\xc3\r\xa9>\r".to_vec(), b"a\nb\rc>\r".to_vec(), b"\x1b[31mred>\r".to_vec(), b"{} %s {0}>\r".to_vec(),
        b"BBS>\r\xf0\x9f\x93\xbb\r\xf0\x9f\r".to_vec(), b"BBS>\rnow\r\xff\xfe".to_vec(), vec![b'z'; 300],
    ];
    let mut v = vec![];
    for x in &texts {
        let mut parts = vec![vec![Act::Data(x.clone())]];
        for k in 1..x.len().min(12) { parts.push(vec![Act::Data(x[..k].to_vec()), Act::Settle, Act::Data(x[k..].to_vec())]); }
        for p in parts {
            if p[0] == Act::Data(vec![]) { continue; }
            for end in [show::leave(), vec![Act::CloseControl], vec![Act::ResetData, Act::Settle]] {
                v.push(logged(show::scenario(show::Plan::new(show::exchange(p.clone(), vec![], end.clone())))));
                v.push(logged(show::scenario(show::Plan::new(show::exchange([vec![text("BBS>|")], p.clone()].concat(), p.clone(), end)))));
            }
        }
    }
    out.push(Family { label: "program, text of the remote station, cut anywhere", bound: if t { 1 } else { 0 }, scenarios: v });
    let mut v = vec![];
    for line in [&b"\xff"[..], b"BUFFER \xff", b"CONNECTED \xff \xff", b"REGISTERED \xff\xfe\xc3", b"?", b"PTT ON", b"PTT OFF", b"PENDING", b"BUSY ON", b"IAMALIVE", b"WRONG", b"OK", b"\xc3\xa9", b""] {
        for at in 0..12 {
            let mut m = show::exchange(vec![text("hi|BBS>|")], vec![text("x|")], show::leave());
            m.insert(at, Act::Say([line, b"\r"].concat()));
            v.push(logged(show::scenario(show::Plan::new(m))));
        }
    }
    out.push(Family { label: "program, lines of the modem at every step", bound: if t { 1 } else { 0 }, scenarios: v });
    let mut v = vec![];
    for rig in [vec![Act::RigSays(b"\xff;\xc3;;ID017;".to_vec())], vec![Act::RigSays(b"\xc3".to_vec()), Act::Settle, Act::RigSays(b"\xa9;".to_vec()), Act::RigHangs], vec![Act::RigFails], vec![]] {
        for end in [show::leave(), vec![Act::ResetControl], vec![say("?|")]] {
            let mut m = opening();
            m.extend([ptt::ptt(true), ptt::ptt(false), text("hi>|"), ptt::ptt(true)]);
            m.extend(end);
            m.push(Act::Serve);
            v.push(logged(ptt::scenario(ptt::Plan { modem: m, rig: rig.clone(), operator: ptt::operator(), cuts: (Cuts::Never, Cuts::Some, false), rig_cap: None })));
        }
    }
    out.push(Family { label: "program, rig and modem", bound: if t { 2 } else { 1 }, scenarios: v });
    out
}
