//! C23: the modem is reached at the configured ports.

use crate::kit::*;
use mcsched::explore::*;
use mcsched::net::{self as sim, Listen};
use mcsched::*;
use plusendi::modem::vara::VaraTnc;
use report::{map, Check, Violation};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

#[derive(Clone, Copy, Debug)]
struct Setting { host: Option<IpAddr>, control: Option<u16>, data: Option<u16>, answers: (Listen, Listen), twice: bool }

fn expected(s: &Setting) -> (IpAddr, u16, Option<u16>) {
    let host = s.host.unwrap_or(Ipv4Addr::LOCALHOST.into());
    let control = s.control.unwrap_or(8300);
    (host, control, s.data.or(control.checked_add(1)))
}

fn built(s: Setting) -> Scenario<'static> {
    let (host, control, data) = expected(&s);
    Scenario {
        name: format!("{s:?}"),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            // Only these two listen; everything else refuses.
            if control == data.unwrap_or(0) { sim::listen(SocketAddr::new(host, control), s.answers.0); }
            else {
                sim::listen(SocketAddr::new(host, control), s.answers.0);
                if let Some(d) = data { sim::listen(SocketAddr::new(host, d), s.answers.1); }
            }
            caller("user", async move {
                let mut b = VaraTnc::builder();
                if let Some(h) = s.host { b.host(h); }
                if let Some(c) = s.control { b.control_port(c.try_into().unwrap()); }
                if let Some(d) = s.data { b.data_port(d.try_into().unwrap()); }
                for _ in 0..1 + s.twice as usize {
                    match b.build().await {
                        Ok(t) => {
                            note("built");
                            settle().await;
                            let open = rt().world.conns.iter().enumerate().filter(|c| !sim::is_closed(c.0)).count();
                            note(format!("{open} connections are open"));
                            drop(t);
                            settle().await;
                        }
                        Err(e) => note(format!("refused {:?}", e.kind())),
                    }
                }
            });
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            let asked: Vec<(SocketAddr, bool)> = e.log.iter().filter_map(|ev| match ev { Event::Connect { addr, conn } => Some((*addr, conn.is_some())), _ => None }).collect();
            let rounds = 1 + s.twice as usize;
            let Some(data) = data else {
                if !asked.is_empty() { return Err(format!("there is no data port, but the program connects to {asked:?}")); }
                if notes(e, "refused").len() != rounds { return Err("there is no data port, but building does not fail".into()); }
                return Ok(());
            };
            let (c, d) = (SocketAddr::new(host, control), SocketAddr::new(host, data));
            let ok = s.answers.0 == Listen::Accept && (s.answers.1 == Listen::Accept || c == d);
            for a in &asked { if a.0 != c && a.0 != d { return Err(format!("the program connects to {}, configured are {c} and {d}", a.0)); } }
            for conn in 0..e.log.iter().filter(|ev| matches!(ev, Event::Connect { conn: Some(_), .. })).count() {
                if closed(e, conn).is_none() { return Err(format!("connection {conn} stays open")); }
            }
            if ok {
                let mut got: Vec<SocketAddr> = asked.iter().filter(|a| a.1).map(|a| a.0).collect();
                let mut want: Vec<SocketAddr> = (0..rounds).flat_map(|_| [c, d]).collect();
                got.sort(); want.sort();
                if got != want { return Err(format!("the program connects to {got:?}, not {want:?}")); }
                if notes(e, "built").len() != rounds { return Err("building fails although both ports accept".into()); }
                if notes(e, "").iter().filter(|n| **n == "2 connections are open").count() != rounds { return Err("a modem does not hold two connections".into()); }
            } else {
                if notes(e, "refused").len() != rounds { return Err("building succeeds although a connection was refused".into()); }
            }
            Ok(())
        }),
    }
}

/// Which connection carries commands and which carries data.
fn roles(s: Setting) -> Scenario<'static> {
    let (host, control, data) = expected(&s);
    let (c, d) = (SocketAddr::new(host, control), SocketAddr::new(host, data.unwrap()));
    Scenario {
        name: format!("what goes where with {s:?}"),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            sim::listen(c, Listen::Accept);
            sim::listen(d, Listen::Accept);
            world("modem", async move {
                let mut x = sim::accepted(c, 0).await;
                let mut y = sim::accepted(d, if c == d { 1 } else { 0 }).await;
                if c == d {
                    // Either may be the one for commands.
                    settle().await;
                    if !sim::waiting(x, |b| !b.is_empty()) { std::mem::swap(&mut x, &mut y); }
                }
                let line = sim::recv_until(x, b'\r').await.unwrap_or_default();
                note(format!("control: {}", report::show(&line)));
                sim::send(x, b"OK\rCONNECTED KC1GSL W1AW\r");
                sim::send(y, b"hi");
                let text = sim::recv_some(y, 10).await;
                note(format!("data: {}", report::show(&text)));
            });
            caller("user", async move {
                use tokio::io::{AsyncReadExt, AsyncWriteExt};
                let mut b = VaraTnc::builder();
                if let Some(h) = s.host { b.host(h); }
                if let Some(c) = s.control { b.control_port(c.try_into().unwrap()); }
                if let Some(d) = s.data { b.data_port(d.try_into().unwrap()); }
                let mut t = b.build().await.expect("both accept");
                let mut v = t.connect(id("KC1GSL"), id("W1AW")).await.expect("connected");
                let mut buf = [0; 2];
                v.read_exact(&mut buf).await.expect("data");
                v.write_all(b"ho").await.expect("data");
                note(format!("user: {}", report::show(&buf)));
            });
        }),
        judge: Box::new(|e| {
            finished(e, "user")?;
            for (who, want) in [("control: ", "b\"CONNECT KC1GSL W1AW\\r\""), ("data: ", "b\"ho\""), ("user: ", "b\"hi\"")] {
                let got = notes(e, who);
                if got != [want] { return Err(format!("{who}{got:?}")); }
            }
            Ok(())
        }),
    }
}

/// One thing done to a builder.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Turn { Host(IpAddr), Control(u16), Data(u16), Build, /// Goes on with a copy.
    Copy }

/// One builder, its settings changed and modems built in any order.
fn turns(todo: Vec<Turn>) -> Scenario<'static> {
    let (mut host, mut control, mut data): (IpAddr, u16, Option<u16>) = (Ipv4Addr::LOCALHOST.into(), 8300, None);
    let mut want: Vec<Option<[SocketAddr; 2]>> = vec![];
    for t in &todo {
        match *t {
            Turn::Host(h) => host = h,
            Turn::Control(c) => control = c,
            Turn::Data(d) => data = Some(d),
            Turn::Build => want.push(data.or(control.checked_add(1)).map(|d| [SocketAddr::new(host, control), SocketAddr::new(host, d)])),
            Turn::Copy => {}
        }
    }
    let listening: std::collections::HashSet<SocketAddr> = want.iter().flatten().flatten().copied().collect();
    Scenario {
        name: format!("{todo:?}"),
        config: Config::default,
        setup: Box::new(move || {
            fresh();
            for a in &listening { sim::listen(*a, Listen::Accept); }
            let todo = todo.clone();
            caller("user", async move {
                let mut b = VaraTnc::builder();
                for t in todo {
                    match t {
                        Turn::Host(h) => { b.host(h); }
                        Turn::Control(c) => { b.control_port(c.try_into().unwrap()); }
                        Turn::Data(d) => { b.data_port(d.try_into().unwrap()); }
                        Turn::Build => {
                            let r = b.build().await;
                            note(format!("build: {}", outcome(&r)));
                        }
                        Turn::Copy => b = b.clone(),
                    }
                }
            });
        }),
        judge: Box::new(move |e| {
            all_finished(e)?;
            let mut asked: Vec<SocketAddr> = vec![];
            let mut builds = want.iter();
            for ev in &e.log {
                match ev {
                    Event::Connect { addr, .. } => asked.push(*addr),
                    Event::Note(n) => if let Some(got) = n.strip_prefix("build: ") {
                        let want = builds.next().unwrap();
                        asked.sort();
                        let mut w = want.map_or(vec![], |w| w.to_vec());
                        w.sort();
                        if asked != w { return Err(format!("a modem is built by connecting to {asked:?}, not {w:?}")); }
                        if got != if want.is_some() { "ok" } else { "error" } { return Err(format!("building a modem at {w:?} ends with {got}")); }
                        asked.clear();
                    },
                    _ => {}
                }
            }
            if builds.next().is_some() || !asked.is_empty() { return Err("a modem is missing, or one too many".into()); }
            Ok(())
        }),
    }
}

pub fn c23(check: &Check) {
    // One builder, used in any way.
    let every = [Turn::Build, Turn::Control(9000), Turn::Control(65535), Turn::Control(8300), Turn::Data(700), Turn::Data(9001), Turn::Host(Ipv6Addr::LOCALHOST.into()), Turn::Host(Ipv4Addr::new(10, 1, 2, 3).into()), Turn::Copy];
    let mut all = vec![];
    for len in 1..=check.pick(5, 6) {
        for i in 0..every.len().pow(len as u32 - 1) {
            // What is not followed by building makes no difference.
            all.push(turns((0..len - 1).map(|k| every[i / every.len().pow(k as u32) % every.len()]).chain([Turn::Build]).collect()));
        }
    }
    crate::commands::run(check, "one builder, set and used in any order", 0, all);
    let accept = (Listen::Accept, Listen::Accept);
    let plain = Setting { host: None, control: None, data: None, answers: accept, twice: false };
    // Every control port, with and without a data port.
    let one = |label: &str, n: usize, make: &(dyn Fn(usize) -> Setting + Sync)| {
        check.enumerate(label, n, |i, probe| {
            let s = make(i);
            probe.busy(format!("{s:?}").as_bytes());
            let sc = built(s);
            match explore(&sc, 0, 1, u64::MAX, None) {
                Ok(t) => Ok(t.nodes),
                Err((what, _)) => Err(Violation { what: format!("{s:?}: {what}"), size: i, replay: map([("setting", format!("{s:?}").into())]) }),
            }
        });
    };
    one("every control port without a data port", 65535, &|i| Setting { control: Some(i as u16 + 1), ..plain });
    one("every data port", 65535, &|i| Setting { data: Some(i as u16 + 1), ..plain });
    one("every control port with a data port", 65535, &|i| Setting { control: Some(i as u16 + 1), data: Some((i as u16 ^ 0x5555).max(1)), ..plain });
    // Hosts, refusals, repetition, corner ports: all combinations, with schedules.
    let hosts: [Option<IpAddr>; 5] = [None, Some(Ipv4Addr::LOCALHOST.into()), Some(Ipv4Addr::new(192, 168, 7, 250).into()), Some(Ipv6Addr::LOCALHOST.into()), Some("fe80::1".parse().unwrap())];
    let ports = [None, Some(1u16), Some(2), Some(8299), Some(8300), Some(8301), Some(255), Some(256), Some(32767), Some(32768), Some(65534), Some(65535)];
    let mut all = vec![];
    for host in hosts { for control in ports { for data in ports { for a in [Listen::Accept, Listen::Refuse] { for b in [Listen::Accept, Listen::Refuse] { for twice in [false, true] {
        all.push(built(Setting { host, control, data, answers: (a, b), twice }));
    } } } } } }
    crate::commands::run(check, "hosts, ports and refusals", check.pick(1, 3), all);
    let mut all = vec![];
    for host in hosts { for control in ports { for data in ports {
        let s = Setting { host, control, data, ..plain };
        if expected(&s).2.is_some() { all.push(roles(s)); }
    } } }
    crate::commands::run(check, "which connection carries what", check.pick(1, 2), all);
}
