//! C09: proposals and answers against an independent reading of the line formats.

use crate::words::{nth_string, strings_upto};
use plusendi::fbb::{MessageChoice, MessageType};
use plusendi::verif::proposal::{self, Verdict};
use report::*;

/// What a line says, field by field, as text.
type Fields = Vec<String>;

#[derive(Debug, PartialEq)]
enum Reading {
    Says(Fields, usize),
    Partial,
    Wrong,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Fbb, Winlink, Answer(usize) }

const KINDS: [Kind; 7] = [Kind::Fbb, Kind::Winlink, Kind::Answer(1), Kind::Answer(2), Kind::Answer(3), Kind::Answer(4), Kind::Answer(5)];

fn actual(kind: Kind, line: &[u8]) -> Result<Reading, String> {
    fn reading<T>(v: Verdict<T>, len: usize, f: impl FnOnce(T) -> Fields) -> Reading {
        match v {
            Verdict::Complete { value, remaining } => Reading::Says(f(value), len - remaining),
            Verdict::Incomplete => Reading::Partial,
            Verdict::Invalid => Reading::Wrong,
        }
    }
    let choices = |v: Vec<MessageChoice>| v.into_iter().map(|c| match c {
        MessageChoice::Accept { offset } => format!("accept from {}", u64::from(offset)),
        MessageChoice::Defer => "defer".to_string(),
        MessageChoice::Reject => "reject".to_string(),
    }).collect();
    guarded(|| match kind {
        Kind::Fbb => reading(proposal::proposal(line), line.len(), |p| vec![
            match p.message_type { MessageType::Private => "P", MessageType::Bulletin => "B", MessageType::Traffic => "T" }.to_string(),
            p.sender, p.at_bbs, p.recipient, p.message_id, p.size.to_string(),
        ]),
        Kind::Winlink => reading(proposal::winlink_proposal(line), line.len(), |p| {
            let mut f = vec![p.message_id, p.uncompressed_size.to_string(), p.compressed_size.to_string()];
            if let Some((a, b, c)) = p.routing { f.extend([a, b, c]); }
            f
        }),
        Kind::Answer(1) => reading(proposal::selection::<1>(line), line.len(), choices),
        Kind::Answer(2) => reading(proposal::selection::<2>(line), line.len(), choices),
        Kind::Answer(3) => reading(proposal::selection::<3>(line), line.len(), choices),
        Kind::Answer(4) => reading(proposal::selection::<4>(line), line.len(), choices),
        Kind::Answer(_) => reading(proposal::selection::<5>(line), line.len(), choices),
    })
}

/// A line's content up to its CR, split at spaces; fields checked one by one.
fn text(field: &[u8], max: usize) -> Option<String> {
    if field.is_empty() || field.len() > max { return None; }
    String::from_utf8(field.to_vec()).ok()
}
fn number(field: &[u8]) -> Option<String> {
    if field.is_empty() || field.len() > 6 || !field.iter().all(u8::is_ascii_digit) { return None; }
    Some(field.iter().fold(0u64, |n, d| n * 10 + (d - b'0') as u64).to_string())
}

/// None: not a well-formed line (of this kind, with its CR).
fn expected_line(kind: Kind, line: &[u8]) -> Option<Fields> {
    let f: Vec<&[u8]> = line.split(|&b| b == b' ').collect();
    match kind {
        Kind::Fbb => {
            if f.len() != 7 || !(f[0] == b"FA" || f[0] == b"FB") { return None; }
            if !matches!(f[1], b"P" | b"B" | b"T") { return None; }
            Some(vec![text(f[1], 1)?, text(f[2], 6)?, text(f[3], 40)?, text(f[4], 6)?, text(f[5], 12)?, number(f[6])?])
        }
        Kind::Winlink => {
            if !(f.len() == 5 || f.len() == 8) || f[0] != b"FC" || f[1] != b"EM" { return None; }
            let mut out = vec![text(f[2], 12)?, number(f[3])?, number(f[4])?];
            if f.len() == 8 { out.extend([text(f[5], 6)?, text(f[6], 40)?, text(f[7], 6)?]); }
            Some(out)
        }
        Kind::Answer(_) => unreachable!(),
    }
}

fn expected_answer(n: usize, line: &[u8]) -> Reading {
    let prefix = b"FS ";
    for (i, p) in prefix.iter().enumerate() {
        match line.get(i) { None => return Reading::Partial, Some(b) if b != p => return Reading::Wrong, _ => {} }
    }
    let mut at = 3;
    let mut out = vec![];
    for _ in 0..n {
        let Some(&b) = line.get(at) else { return Reading::Partial };
        at += 1;
        match b {
            b'+' | b'Y' | b'H' => out.push("accept from 0".to_string()),
            b'=' | b'L' => out.push("defer".to_string()),
            b'-' | b'N' | b'R' | b'E' => out.push("reject".to_string()),
            b'!' | b'A' => {
                let digits = line[at..].iter().take(6).take_while(|b| b.is_ascii_digit()).count();
                if digits < 6 && at + digits == line.len() { return Reading::Partial; }
                let Some(n) = number(&line[at..at + digits]) else { return Reading::Wrong };
                at += digits;
                out.push(format!("accept from {n}"));
            }
            _ => return Reading::Wrong,
        }
    }
    Reading::Says(out, at)
}

fn judge(kind: Kind, line: &[u8]) -> Result<(), String> {
    let got = actual(kind, line).map_err(|e| format!("reading {} as {kind:?} {e}", show(line)))?;
    let bad = |want: &str| Err(format!("{} read as {kind:?} gives {got:?}, not {want}", show(line)));
    if let Kind::Answer(n) = kind {
        let want = expected_answer(n, line);
        return if got == want { Ok(()) } else { bad(&format!("{want:?}")) };
    }
    match line.iter().position(|&b| b == b'\r') {
        Some(end) => match expected_line(kind, &line[..end]) {
            Some(fields) => {
                let want = Reading::Says(fields, end + 1);
                if got == want { Ok(()) } else { bad(&format!("{want:?}")) }
            }
            None => if got == Reading::Wrong { Ok(()) } else { bad("a refusal") },
        },
        None => {
            // still arriving: waiting is right unless what is there can no longer become valid
            match got {
                Reading::Partial => Ok(()),
                Reading::Says(..) => bad("waiting for the end of the line"),
                Reading::Wrong => if viable(kind, line) { bad("waiting for the end of the line") } else { Ok(()) },
            }
        }
    }
}

/// Whether an unfinished line can still become a valid one.
fn viable(kind: Kind, line: &[u8]) -> bool {
    let rest: [&[u8]; 14] = [b"", b"A", b"B", b"C", b" ", b"EM", b"M", b"P", b"x", b"1", b" x", b" 1", b"EM x 1 1", b" EM x 1 1"];
    let more: [&[u8]; 9] = [b"", b" 1", b" 1 1", b" x 1 1", b" x x x", b" x x", b" x x x 1", b" x x x x 1", b" P x x x x 1"];
    let last: [&[u8]; 4] = [b"", b" 1", b" x 1", b" x"];
    for a in rest {
        for b in more {
            for c in last {
                let mut l = line.to_vec();
                l.extend(a); l.extend(b); l.extend(c);
                if expected_line(kind, &l).is_some() { return true; }
            }
        }
    }
    // a character of several bytes cut in two
    for tail in [&b"\x80"[..], b"\x80\x80", b"\x80\x80\x80", b"\xa9", b"\xa9\x80"] {
        if matches!(line.last(), Some(b) if *b >= 0x80) {
            let mut l = line.to_vec();
            l.extend(tail);
            if std::str::from_utf8(line).is_err() && std::str::from_utf8(&l).is_ok() && viable(kind, &l) { return true; }
        }
    }
    false
}

pub fn one(line: &[u8]) -> Result<(), String> {
    for k in KINDS { judge(k, line)?; }
    Ok(())
}

pub fn c09(check: &Check) {
    let run = |label: &str, n: usize, gen: &(dyn Fn(usize) -> Vec<u8> + Sync)| check.enumerate(label, n, |i, probe| {
        let line = gen(i);
        probe.busy(&line);
        one(&line).map_err(|e| Violation { what: e, size: line.len(), replay: map([("case", "line".into()), ("input", hex(&line).into())]) })?;
        Ok(KINDS.len() as u64)
    });
    // answers: every symbol, every sequence of them
    let symbols: [&[u8]; 18] = [b"+", b"Y", b"H", b"!0", b"A1", b"!65535", b"A65536", b"!999999", b"A000123", b"=", b"L", b"-", b"N", b"R", b"E", b"1", b" ", b"A"];
    let len = check.pick(4, 5);
    let ids: Vec<u8> = (0..symbols.len() as u8).collect();
    let ends: [&[u8]; 3] = [b"\r", b"", b" \r"];
    run(&format!("all answer lines of up to {len} of {} elements", symbols.len()), strings_upto(symbols.len(), len) * 3, &|i| {
        let mut l = b"FS ".to_vec();
        for k in nth_string(&ids, i / 3) { l.extend(symbols[k as usize]); }
        l.extend(ends[i % 3]);
        l
    });
    run("every byte as an answer", 256 * 256, &|i| { let mut l = b"FS ".to_vec(); l.extend([(i >> 8) as u8, i as u8]); l.push(b'\r'); l });
    run("every resume offset", 1_000_000, &|i| format!("FS {}{}\r", if i % 2 == 0 { 'A' } else { '!' }, i).into_bytes());
    run("every resume offset with leading zeros, followed by a digit or an answer", 200_000, &|i| format!("FS !{:06}{}\r", i % 100_000 * 10 + 7, if i < 100_000 { "+" } else { "5" }).into_bytes());
    // proposals: fields of every kind in every place
    let values: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = ["", "x", "W1AW", "ABCDEF", "ABCDEFG", "0", "7", "65535", "65536", "999999", "1000000", "0000001", "1a", "-1", "+1", "P", "EM", "p", "\u{e9}", "X\rY", "K1A-10", "a@b.c"]
            .iter().map(|s| s.as_bytes().to_vec()).collect();
        v.push(vec![b'N'; 12]); v.push(vec![b'N'; 13]); v.push(vec![b'B'; 40]); v.push(vec![b'B'; 41]); v.push(vec![0xff]); v.push(vec![b'9'; 12]); v.push(b"a\0b".to_vec());
        v
    };
    let goods: Vec<(Vec<&[u8]>, bool)> = vec![
        (vec![b"FA", b"P", b"W1AW", b"K1BBS.#NE.USA.NOAM", b"KC1GSL", b"1234_W1AW", b"4711"], false),
        (vec![b"FB", b"T", b"AB1CD", b"BBS", b"06111", b"X", b"1"], false),
        (vec![b"FC", b"EM", b"TJKYEIMMHSRB", b"527", b"123"], false),
        (vec![b"FC", b"EM", b"M1", b"65536", b"99999", b"W1AW", b"K1BBS.#NE", b"KC1GSL"], false),
    ];
    let join = |f: &[Vec<u8>]| { let mut l = f.join(&b' '); l.push(b'\r'); l };
    for (k, (good, _)) in goods.iter().enumerate() {
        let good: Vec<Vec<u8>> = good.iter().map(|f| f.to_vec()).collect();
        let n = good.len();
        let v = values.len();
        run(&format!("proposal {k}: every two fields replaced by every two of {v} values"), n * n * v * v, &|i| {
            let mut f = good.clone();
            f[i / v / v / n] = values[i / v % v].clone();
            f[i / v / v % n] = values[i % v].clone();
            join(&f)
        });
        run(&format!("proposal {k}: fields dropped, doubled, exchanged, added"), n * n * 4, &|i| {
            let (p, q) = (i / 4 / n, i / 4 % n);
            let mut f = good.clone();
            match i % 4 {
                0 => { f.remove(p); }
                1 => { let x = f[p].clone(); f.insert(q, x); }
                2 => f.swap(p, q),
                _ => { f.truncate(p + 1); }
            }
            join(&f)
        });
        let line = join(&good);
        run(&format!("proposal {k}: every byte replaced by or preceded by every byte"), line.len() * 512, &|i| {
            let mut l = line.clone();
            let p = i / 512;
            if i % 2 == 0 { l[p] = (i / 2 % 256) as u8 } else { l.insert(p, (i / 2 % 256) as u8) }
            l
        });
        run(&format!("proposal {k}: every prefix, and every prefix ended early"), line.len() * 2, &|i| {
            let mut l = line[..i / 2].to_vec();
            if i % 2 == 1 { l.push(b'\r') }
            l
        });
        run(&format!("proposal {k}: followed by anything"), 512, &|i| { let mut l = line.clone(); l.push((i / 2) as u8); if i % 2 == 1 { l.extend(&line); } l });
        // every length of every field
        run(&format!("proposal {k}: every length of every field"), n * 60, &|i| {
            let mut f = good.clone();
            let digit = f[i / 60].iter().all(u8::is_ascii_digit);
            f[i / 60] = vec![if digit { b'1' } else { b'Z' }; i % 60];
            join(&f)
        });
    }
    run("every message size", 1_000_001, &|i| format!("FB B a b c d {i}\r").into_bytes());
    run("every pair of message type and tag bytes", 1 << 16, &|i| { let mut l = b"F? ? a b c d 1\r".to_vec(); l[1] = (i >> 8) as u8; l[3] = i as u8; l });
    // everything short
    let alphabet = *b"FASCEM 1P\r";
    let len = check.pick(5, 7);
    run(&format!("all lines up to {len} over {} characters", alphabet.len()), strings_upto(alphabet.len(), len), &|i| nth_string(&alphabet, i));
    let alphabet = *b" 1x\r\xc3\xa9";
    let len = check.pick(6, 8);
    for start in ["FC EM ", "FA P a b c", "FC EM a 1 1", "FS A"] {
        run(&format!("{start:?}, then everything up to {len} over {} characters", alphabet.len()), strings_upto(alphabet.len(), len), &|i| {
            let mut l = start.as_bytes().to_vec();
            l.extend(nth_string(&alphabet, i));
            l
        });
    }
    check.sample("FB T AB1CD BBS 06111 X 1<CR> -> T, AB1CD, BBS, 06111, X, 1");
    check.sample("FS Y!100-<CR> for three proposals -> accept from 0, accept from 100, reject");
}
