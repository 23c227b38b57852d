//! C24: the command line decides who is contacted, and how.

use crate::server::{Exit, Family, Outcome, Run, Scenario};
use crate::world::*;
use mcsched::net::Listen;
use mcsched::*;
use report::Tier;
use std::net::{IpAddr, SocketAddr};

struct Good { args: Vec<String>, address: IpAddr, control: u16, data: u16, me: String, them: String, path: String, baud: u32 }

fn good(g: Good) -> Scenario {
    let (ctl, dat) = (SocketAddr::new(g.address, g.control), SocketAddr::new(g.address, g.data));
    let (path, baud) = (g.path.clone(), g.baud);
    Scenario {
        name: g.args.join(" "),
        args: g.args.clone(),
        setup: Box::new(move || {
            let w = &mut rt().world;
            w.default = Some(Listen::Accept);
            w.serial.push((path.clone(), baud, rig()));
            let _ = spawn("modem", Side::World, async move {
                let c = mcsched::net::accepted(ctl, 0).await;
                for _ in 0..4 {
                    let Ok(l) = mcsched::net::recv_until(c, b'\r').await else { return };
                    note(format!("modem takes {}", String::from_utf8_lossy(&l)));
                    mcsched::net::send(c, b"OK\r");
                }
                settle().await;
                mcsched::net::send(c, b"DISCONNECTED\r");
                while mcsched::net::recv_until(c, b'\r').await.is_ok() { mcsched::net::send(c, b"OK\r"); }
            });
        }),
        judge: Box::new(move |run| {
            let e = &run.ended;
            let contacts: Vec<SocketAddr> = e.log.iter().filter_map(|ev| match ev { Event::Connect { addr, .. } => Some(*addr), _ => None }).collect();
            let mut want = vec![ctl, dat, rig()];
            let mut got = contacts.clone();
            want.sort();
            got.sort();
            if got != want { return Err(format!("the program contacts {contacts:?} instead of {ctl}, {dat} and the rig at {}, {} baud", g.path, g.baud)); }
            let said = written(e, conn_of(e, ctl));
            let lines: Vec<String> = said.split(|b| *b == b'\r').map(|l| String::from_utf8_lossy(l).into_owned()).collect();
            for want in [format!("MYCALL {}", g.me), format!("CONNECT {} {}", g.me, g.them)] {
                if !lines.contains(&want) { return Err(format!("the program tells the modem {lines:?}, and not {want}")); }
            }
            Ok(Exit::Nonzero)
        }),
        logs: vec!["off"],
    }
}

fn untouched(e: &Ended) -> Result<(), String> {
    for ev in &e.log { if let Event::Connect { addr, .. } = ev { return Err(format!("the program contacts {addr}")); } }
    Ok(())
}
fn bad(args: Vec<String>, exit: Exit) -> Scenario {
    Scenario {
        name: format!("refused: {}", args.join(" ")),
        args,
        setup: Box::new(|| { rt().world.default = Some(Listen::Accept); actor("modem", vec![]); }),
        judge: Box::new(move |run: &Run| { untouched(&run.ended)?; if run.outcome == Outcome::Returned && exit == Exit::Zero { return Err("the program runs".into()); } Ok(exit) }),
        logs: vec!["off"],
    }
}

fn words(s: &str) -> Vec<String> { s.split_whitespace().map(String::from).collect() }

pub fn c24(tier: Tier) -> Vec<Family> {
    let t = tier == Tier::Thorough;
    let mut v = vec![];
    let calls = [("KC1GSL", "KC1GSL"), ("kc1gsl", "KC1GSL"), ("w1aw-7", "W1AW-7"), ("2E0ABC-T1", "2E0ABC-T1"), ("n0call-x", "N0CALL-X")];
    let mut add = |address: Option<&str>, control: Option<u32>, data: Option<u32>, me: usize, them: usize, path: &str, baud: u32, style: usize| {
        let mut a = vec![];
        let opt = |a: &mut Vec<String>, name: &str, v: &str| if style % 2 == 0 { a.extend([name.to_string(), v.to_string()]) } else { a.push(format!("{name}={v}")) };
        if style / 2 % 2 == 0 { a.push(calls[them].0.to_string()); }
        if style / 4 % 2 == 0 { a.extend(["-d".to_string(), calls[me].0.to_string()]); } else { opt(&mut a, "--de", calls[me].0); }
        if let Some(x) = address { opt(&mut a, "--modem-address", x); }
        if let Some(x) = control { opt(&mut a, "--modem-control-port", &x.to_string()); }
        if let Some(x) = data { opt(&mut a, "--modem-data-port", &x.to_string()); }
        opt(&mut a, "--rig-control", path);
        opt(&mut a, "--rig-baud", &baud.to_string());
        if style / 2 % 2 == 1 { a.push(calls[them].0.to_string()); }
        let control = control.unwrap_or(8300) as u16;
        v.push(good(Good {
            args: a, address: address.unwrap_or("127.0.0.1").parse().unwrap(), control, data: data.map_or(control.wrapping_add(1), |d| d as u16),
            me: calls[me].1.into(), them: calls[them].1.into(), path: path.into(), baud,
        }));
    };
    let mut style = 0;
    for address in [None, Some("127.0.0.1"), Some("10.1.2.3"), Some("::1"), Some("255.255.255.255")] {
        for control in [None, Some(1), Some(8300), Some(8301), Some(65534), Some(65535)] {
            for data in [None, Some(1), Some(8300), Some(9000), Some(65535)] {
                if control == Some(65535) && data.is_none() || control.unwrap_or(8300) == data.unwrap_or(0) { continue; }
                style += 1;
                add(address, control, data, style % 5, (style / 5 + 1) % 5, "/dev/ttyUSB0", [4800, 9600, 19200, 38400][style % 4], style);
            }
        }
    }
    for me in 0..5 { for them in 0..5 { for style in 0..8 { add(None, None, None, me, them, ["/dev/ttyUSB0", "COM3", "rig line"][style % 3], [4800, 9600, 19200, 38400][(style + me) % 4], style); } } }
    if t { for control in (1..65535).step_by(7) { add(None, Some(control), None, 0, 1, "/dev/ttyS0", 9600, control as usize); add(None, Some(control), Some(65535 - control + (control == 32767 || control == 65535 - control) as u32), 0, 1, "/dev/ttyS0", 9600, control as usize); } }
    let mut out = vec![Family { label: "command lines", bound: if t { 1 } else { 0 }, scenarios: v }];
    let full = "-d KC1GSL --rig-control /dev/rig --rig-baud 38400 W1AW";
    let mut v = vec![];
    for args in [
        "", "W1AW", "-d KC1GSL W1AW", "--rig-control /dev/rig --rig-baud 38400 W1AW", "-d KC1GSL --rig-control /dev/rig --rig-baud 38400", "-d KC1GSL --rig-control /dev/rig W1AW", "-d KC1GSL --rig-baud 38400 W1AW",
        "-d --rig-control /dev/rig --rig-baud 38400 W1AW",
    ] { v.push(bad(words(args), Exit::Nonzero)); }
    for (from, to) in [
        ("KC1GSL", "KC1"), ("KC1GSL", "K"), ("KC1GSL", "KC1GSL-123"), ("KC1GSL", "KC1GSL-"), ("KC1GSL", "xKC1GSLx/P"), ("KC1GSL", "\u{c9}1AW"), ("W1AW", "W1AW,K1A"), ("W1AW", "W1AW-"), ("W1AW", "1"), ("W1AW", "W1AW\u{a0}"),
        ("W1AW", "W1AW K1A"), ("38400", "38401"), ("38400", "0"), ("38400", "1200"), ("38400", "x"), ("38400", "-4800"), ("38400", "4800.0"),
    ] { v.push(bad(words(full).iter().map(|w| if w == from { to.to_string() } else { w.clone() }).collect(), Exit::Nonzero)); }
    for extra in ["--modem-control-port 0", "--modem-control-port 65536", "--modem-control-port x", "--modem-control-port -1", "--modem-data-port 0", "--modem-data-port 65536", "--modem-data-port", "--modem-address localhost", "--modem-address 1.2.3", "--modem-address 1.2.3.4:5", "--unknown", "-z", "--modem-control-port 65535"] {
        v.push(bad(words(&format!("{full} {extra}")), Exit::Nonzero));
        // The argument parser (not plusendi) takes an option without its value for absent if it has a default.
        if extra.contains(' ') || extra == "-z" || extra == "--unknown" { v.push(bad(words(&format!("{extra} {full}")), Exit::Nonzero)); }
    }
    for help in ["--help", "-h", "--version", "-V"] { v.push(bad(words(help), Exit::Zero)); v.push(bad(words(&format!("{full} {help}")), Exit::Zero)); }
    for log in ["plusendi=loud", "a=b=c", "=", "[", "debug,plusendi=loud", "plusendi[{"] {
        let mut s = bad(words(full), Exit::Nonzero);
        s.name = format!("refused: {full} --log={log}");
        s.logs = vec![log];
        v.push(s);
    }
    out.push(Family { label: "command lines that are refused", bound: 0, scenarios: v });
    out
}
