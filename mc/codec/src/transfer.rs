//! C06-C08: the B2 transfer parser against an independent classifier of transfer bytes.

use crate::words::{crc16, nth_string, strings_upto};
use crate::lz::{self, Decoded, Model, Token};
use plusendi::verif::transfer::{transfer, Transfer, Verdict};
use report::*;

/// What a receiver may answer to these bytes.
#[derive(Debug, Default)]
struct Allowed {
    /// Bytes of a complete transfer, and what it says.
    complete: Option<Content>,
    incomplete: bool,
    invalid: bool,
}

#[derive(Debug)]
struct Content {
    title: Vec<u8>,
    offset: u64,
    body: Decoded,
    used: usize,
    surplus: bool,
}

fn refused() -> Allowed { Allowed { invalid: true, ..Allowed::default() } }
fn partial() -> Allowed { Allowed { incomplete: true, ..Allowed::default() } }

/// The format, read off its description: SOH, header length, title NUL offset NUL, blocks of STX,
/// length (0 is 256), data, then EOT and checksum; the first six data bytes are CRC and size.
fn classify(data: &[u8]) -> Allowed {
    if data.is_empty() { return partial(); }
    if data[0] != 1 { return refused(); }
    let Some(&hlen) = data.get(1) else { return partial() };
    let hlen = hlen as usize;
    if hlen > 88 { return refused(); }
    if data.len() < 2 + hlen {
        // too early to insist on a refusal, and too early to insist on waiting if what is there is already bad
        let bad = data[2..].iter().any(|&b| b != 0 && !(0x20..0x7f).contains(&b)) || hlen < 3;
        return Allowed { incomplete: true, invalid: bad || data[2..].contains(&0), ..Allowed::default() };
    }
    let header = &data[2..2 + hlen];
    let fields: Vec<&[u8]> = header.split(|&b| b == 0).collect();
    let well_formed = fields.len() == 3 && fields[2].is_empty()
        && fields[0].iter().all(|b| (0x20..0x7f).contains(b))
        && !fields[1].is_empty() && fields[1].iter().all(u8::is_ascii_digit);
    if !well_formed { return refused(); }
    let Some(offset) = fields[1].iter().try_fold(0u64, |n, d| { let n = n * 10 + (d - b'0') as u64; (n <= u32::MAX as u64).then_some(n) }) else { return refused() };
    let mut at = 2 + hlen;
    let mut blocks: Vec<&[u8]> = vec![];
    loop {
        // a first block too short for CRC and size may be refused at once or at the end
        let early = blocks.first().map_or(false, |b| b.len() < 6);
        let wait = || Allowed { incomplete: true, invalid: early, ..Allowed::default() };
        match data.get(at) {
            None => return wait(),
            Some(2) => {
                let Some(&len) = data.get(at + 1) else { return wait() };
                let len = if len == 0 { 256 } else { len as usize };
                if data.len() < at + 2 + len {
                    return Allowed { incomplete: true, invalid: early || blocks.is_empty() && len < 6, ..Allowed::default() };
                }
                blocks.push(&data[at + 2..at + 2 + len]);
                at += 2 + len;
            }
            Some(4) => {
                let Some(&sum) = data.get(at + 1) else {
                    return Allowed { incomplete: true, invalid: early || blocks.is_empty(), ..Allowed::default() };
                };
                let all: Vec<u8> = blocks.concat();
                if all.iter().fold(sum, |s, &b| s.wrapping_add(b)) != 0 { return refused(); }
                if blocks.is_empty() {
                    // nothing protected, nothing wrong: no opinion
                    let content = Content { title: fields[0].to_vec(), offset, body: Decoded::Exact(vec![], 0), used: at + 2, surplus: true };
                    return Allowed { complete: Some(content), invalid: true, incomplete: false };
                }
                if blocks[0].len() < 6 { return refused(); }
                if crc16(&all[2..]) != u16::from_le_bytes([all[0], all[1]]) { return refused(); }
                let size = u32::from_le_bytes([all[2], all[3], all[4], all[5]]) as usize;
                // A stream of n bytes cannot stand for more than 60 bytes per two bits.
                let body = if size > all.len() * 240 { Decoded::Short } else { lz::decode(&all[6..], size) };
                let surplus = match &body { Decoded::Exact(_, bits) => (bits + 7) / 8 != all.len() - 6, _ => true };
                return Allowed { complete: Some(Content { title: fields[0].to_vec(), offset, body, used: at + 2, surplus }), ..Allowed::default() };
            }
            Some(_) => return refused(),
        }
    }
}

/// One input; `lacks` is how many bytes a valid transfer starting like this still lacks.
pub fn judge(data: &[u8], lacks: Option<usize>) -> Result<&'static str, String> {
    let bad = |what: String| Err(format!("the transfer {} {what}", if data.len() > 120 { show(data) } else { hex(data) }));
    let got = match guarded(|| transfer(data)) { Ok(v) => v, Err(e) => return bad(e) };
    let want = classify(data);
    match got {
        Verdict::Invalid if want.invalid => Ok("refused"),
        Verdict::Invalid => bad(format!("is refused{}", if want.incomplete { " while it is still arriving" } else { "" })),
        Verdict::Incomplete { needed } => {
            if !want.incomplete { return bad(format!("is reported as incomplete{}", if want.complete.is_some() { " although it is complete" } else { " although it is malformed" })); }
            if let (Some(n), Some(lacks)) = (needed, lacks) {
                if n > lacks || n == 0 { return bad(format!("asks for {n} more bytes where {lacks} are missing")); }
            }
            Ok("incomplete")
        }
        Verdict::Complete { transfer: Transfer { title, offset, body }, remaining } => {
            let Some(c) = want.complete else {
                return bad(format!("is accepted although it is {}", if want.incomplete { "incomplete" } else { "malformed or corrupted" }));
            };
            if title.as_bytes() != &c.title[..] { return bad(format!("yields the title {title:?}")); }
            if offset as u64 != c.offset { return bad(format!("yields the offset {offset}")); }
            if data.len() - remaining != c.used { return bad(format!("leaves {remaining} bytes of {} behind it", data.len() - c.used)); }
            match (&c.body, body) {
                (Decoded::Exact(want, _), Some(got)) if *want == got => Ok("accepted"),
                (Decoded::Exact(_, _), None) if c.surplus => Ok("accepted, body refused"),
                (Decoded::Short, None) | (Decoded::TooFar, _) => Ok("accepted, body refused"),
                (Decoded::Overrun(_), None) => Ok("accepted, body refused"),
                (Decoded::Overrun(want), Some(got)) if *want == got => Ok("accepted"),
                (want, got) => bad(format!("yields {:?} where its body is {:?}", got.map(|b| show(&b)), want)),
            }
        }
    }
}

pub fn one(data: &[u8]) -> Result<(), String> { judge(data, None).map(|_| ()) }

#[derive(Clone)]
struct Frame {
    title: Vec<u8>,
    offset: String,
    /// CRC, size and compressed body.
    content: Vec<u8>,
    sum: u8,
}

fn frame(title: &[u8], offset: &str, size: u32, body: &[u8]) -> Frame {
    let mut rest = size.to_le_bytes().to_vec();
    rest.extend(body);
    let mut content = crc16(&rest).to_le_bytes().to_vec();
    content.extend(rest);
    let sum = content.iter().fold(0u8, |s, &b| s.wrapping_sub(b));
    Frame { title: title.to_vec(), offset: offset.into(), content, sum }
}

/// Packs a text as the reference model: literals, with a copy where a run allows.
fn packed(text: &[u8]) -> Vec<u8> {
    let mut m = Model::new();
    let mut i = 0;
    while i < text.len() {
        let run = text[i..].iter().take(60).take_while(|&&b| i > 0 && b == text[i - 1]).count();
        if run >= 3 { m.write(Token::Copy { dist: 1, len: run }); i += run; } else { m.write(Token::Literal(text[i])); i += 1; }
    }
    m.stream()
}

impl Frame {
    fn of(title: &[u8], offset: &str, text: &[u8]) -> Frame { frame(title, offset, text.len() as u32, &packed(text)) }
    fn header(&self) -> Vec<u8> {
        let mut t = vec![1, (self.title.len() + self.offset.len() + 2) as u8];
        t.extend(&self.title);
        t.push(0);
        t.extend(self.offset.as_bytes());
        t.push(0);
        t
    }
    /// `blocks`: how many content bytes go into each block.
    fn bytes(&self, blocks: &[usize]) -> Vec<u8> {
        let mut t = self.header();
        let mut at = 0;
        for &n in blocks {
            t.push(2);
            t.push((n % 256) as u8);
            t.extend(&self.content[at..at + n]);
            at += n;
        }
        assert_eq!(at, self.content.len());
        t.extend([4, self.sum]);
        t
    }
    /// First block of `first` content bytes, the rest in blocks of `each`.
    fn even(&self, first: usize, each: usize) -> Vec<u8> {
        let n = self.content.len();
        let mut blocks = vec![first.min(n)];
        let mut left = n - blocks[0];
        while left > 0 { let k = left.min(each); blocks.push(k); left -= k; }
        self.bytes(&blocks)
    }
}

/// The `i`-th way to divide n bytes into blocks of 1.. with the first holding at least six.
fn division(n: usize, i: usize) -> Vec<usize> {
    let mut blocks = vec![6];
    for k in 6..n {
        if i >> (k - 6) & 1 == 1 { blocks.push(1) } else { *blocks.last_mut().unwrap() += 1 }
    }
    blocks
}

fn report(e: String, data: &[u8]) -> Violation {
    Violation { what: e, size: data.len(), replay: map([("case", "transfer".into()), ("input", hex(data).into())]) }
}

fn expect(data: &[u8], verdict: &str) -> Result<(), Violation> {
    match judge(data, None) {
        Ok(v) if v == verdict => Ok(()),
        Ok(v) => Err(report(format!("the transfer {} is {v}, not {verdict}", show(data)), data)),
        Err(e) => Err(report(e, data)),
    }
}

fn sample_texts(thorough: bool) -> Vec<Vec<u8>> {
    let mut v = vec![b"".to_vec(), b"A".to_vec(), b"ab".to_vec(), b"aaaaaaa\r\n".to_vec(), b"Hello, world.\r\n73\r\n".to_vec(), vec![0, 1, 2, 4, 255, 2, 1]];
    if thorough { v.push((0..=255).collect()); }
    v
}

pub fn c06(check: &Check) {
    let thorough = check.thorough();
    // titles and offsets
    let mut titles: Vec<Vec<u8>> = (0..=80).map(|n| (0..n).map(|k| b'A' + (k % 26) as u8).collect()).collect();
    titles.extend((0x20u8..0x7f).map(|b| vec![b]));
    titles.extend((0x20u8..0x7f).map(|b| vec![b'a', b, b' ']));
    let mut offsets: Vec<String> = ["0", "1", "9", "10", "99", "100", "255", "256", "65535", "65536", "99999", "100000", "999999", "0000", "000007"].iter().map(|s| s.to_string()).collect();
    if thorough { offsets.extend((0..2000).map(|n| (n * 37).to_string())); }
    let n = titles.len() * offsets.len();
    check.enumerate(&format!("{} titles x {} offsets", titles.len(), offsets.len()), n, |i, probe| {
        let data = Frame::of(&titles[i / offsets.len()], &offsets[i % offsets.len()], b"hello hello").even(250, 250);
        probe.busy(&data);
        expect(&data, "accepted").map(|_| 1)
    });
    // offsets beyond six digits with a short title
    let wide = ["1000000", "16777216", "2147483648", "4294967295"];
    check.enumerate("wide offsets", wide.len(), |i, _| expect(&Frame::of(b"T", wide[i], b"x").even(250, 250), "accepted").map(|_| 1));
    // all divisions of short bodies
    let longest = check.pick(14, 18);
    for len in 0..=longest {
        let text: Vec<u8> = (0..len).map(|k| [2u8, 4, 1, 0, 0x80, 0xff][k % 6]).collect();
        let f = Frame::of(b"Subject", "0", &text);
        let extra = f.content.len() - 6;
        if extra > longest + 1 { continue; }
        check.enumerate(&format!("all divisions of a body of {extra} bytes into blocks"), 1 << extra.saturating_sub(if extra == 0 { 0 } else { 0 }), |i, probe| {
            let data = f.bytes(&division(f.content.len(), i));
            probe.busy(&data);
            expect(&data, "accepted").map(|_| 1)
        });
    }
    // long bodies in blocks of every size
    let lens = check.pick(vec![1, 2, 100, 249, 250, 251, 256, 512, 600], vec![1, 2, 100, 249, 250, 251, 255, 256, 257, 511, 512, 513, 600, 1000, 3000]);
    check.enumerate("bodies of several lengths x first blocks of 6..256 x further blocks of 1..256", lens.len() * 251 * 16, |i, probe| {
        let len = lens[i / 16 / 251];
        let first = 6 + i / 16 % 251;
        let each = if i % 16 == 0 { first } else { [1, 2, 3, 5, 64, 127, 128, 129, 200, 249, 250, 251, 254, 255, 256][i % 16 - 1] };
        let text: Vec<u8> = (0..len).map(|k| (k * 7 + k / 256) as u8).collect();
        let data = Frame::of(b"Long", "0", &text).even(first, each);
        probe.busy(&data);
        expect(&data, "accepted").map(|_| 1)
    });
    // bodies of every order of magnitude: the recorded size, the content, and the number of blocks
    let mut large: Vec<(usize, bool, usize, usize)> = vec![];
    for n in [255usize, 256, 257, 4096, 65534, 65535, 65536, 65537, 70000, 99999, 131072, 200000, 1000000, 16777215, 16777216, 16777471] { large.push((n, false, 250, 250)); large.push((n, false, 6, 256)); }
    for n in [20000usize, 33000, 66000] { for (a, b) in [(250, 250), (256, 256), (6, 1), (7, 128)] { large.push((n, true, a, b)); } }
    check.enumerate("bodies of up to 16 MB, contents of up to 66 kB, up to 66000 blocks", large.len(), |i, probe| {
        let (n, mixed, first, each) = large[i];
        let text: Vec<u8> = (0..n).map(|k| if mixed { (k * k / 7 + k / 13 + (k >> 8) * 31) as u8 } else { b'x' }).collect();
        let data = Frame::of(b"Large", "0", &text).even(first, each);
        probe.busy(&data);
        expect(&data, "accepted").map(|_| 1)
    });
    // recorded sizes with every single byte set, which need not be those of the body
    check.enumerate("every recorded size of one byte, in all four places", 4 * 256, |i, probe| {
        let size = ((i % 256) as u32) << (i / 256 * 8);
        let data = frame(b"Size", "0", size.min(0x8000000), &packed(b"some text")).even(250, 250);
        probe.busy(&data);
        match judge(&data, None) {
            Ok(v) if v.starts_with("accepted") => Ok(1),
            Ok(v) => Err(report(format!("the transfer {} is {v}", show(&data)), &data)),
            Err(e) => Err(report(e, &data)),
        }
    });
    // every checksum: bodies whose content takes every sum
    check.enumerate("texts of two bytes (every checksum value)", 1 << 16, |i, probe| {
        let data = Frame::of(b"S", "0", &[(i >> 8) as u8, i as u8]).even(250, 250);
        probe.busy(&data);
        expect(&data, "accepted").map(|_| 1)
    });
    // what follows
    let texts = sample_texts(thorough);
    let full: Vec<u8> = (0..=255).collect();
    let tails = strings_upto(256, check.pick(1, 2)) + 3;
    check.enumerate(&format!("{} transfers x every trailer", texts.len()), texts.len() * tails, |i, probe| {
        let f = Frame::of(b"Two words", "12", &texts[i / tails]);
        let mut data = f.even(40, 9);
        match i % tails {
            0 => data.extend(Frame::of(b"Next", "0", b"next").even(250, 250)),
            1 => data.extend([4, f.sum]),
            2 => data.extend([2, 1, 0, 4, 0]),
            k => data.extend(nth_string(&full, k - 3)),
        }
        probe.busy(&data);
        expect(&data, "accepted").map(|_| 1)
    });
    check.sample("title \"\", offset 0, body \"\" in one block of 6; blocks [6,1,1,3]; block of 256 (length byte 0)");
}

/// If it is accepted, it must be valid and say what it says; anything else goes.
fn acceptance(data: &[u8]) -> Result<(), String> {
    match guarded(|| transfer(data)) {
        Ok(Verdict::Complete { .. }) => judge(data, None).map(|_| ()),
        Ok(_) => Ok(()),
        Err(e) => Err(format!("the transfer {} {e}", hex(data))),
    }
}

/// Must not be accepted.
fn never(data: &[u8], why: &str, probe: &Probe) -> Result<(), Violation> {
    probe.busy(data);
    match guarded(|| transfer(data)) {
        Ok(Verdict::Complete { .. }) => Err(report(format!("{why}: the transfer {} is accepted", show(data)), data)),
        Ok(_) => Ok(()),
        Err(e) => Err(report(format!("{why}: the transfer {} {e}", hex(data)), data)),
    }
}

pub fn c07(check: &Check) {
    let texts = sample_texts(check.thorough());
    let layouts: Vec<(usize, usize)> = check.pick(vec![(250, 250), (6, 1), (8, 3)], vec![(250, 250), (6, 1), (8, 3), (7, 2), (11, 5), (6, 256)]);
    let mut frames = vec![];
    // Titles and offsets vary along with the texts.
    let heads: [(&[u8], &str); 5] = [(b"Subject", "0"), (b"S", "6"), (b"", "0"), (b"Resumed message", "1500"), (b"Far on", "999999")];
    for (i, t) in texts.iter().enumerate() { for (k, &(a, b)) in layouts.iter().enumerate() { for (h, &(title, offset)) in heads.iter().enumerate() {
        if check.thorough() || h == 0 || (i + k + h) % 4 == 0 { frames.push((Frame::of(title, offset, t), a, b)); }
    } } }
    // More than one full block.
    let long: Vec<u8> = (0..280u32).map(|k| (k * k / 3 + k) as u8).collect();
    frames.push((Frame::of(b"Long", "0", &long), 256, 256));
    frames.push((Frame::of(b"Long", "250", &long), 250, 250));
    // content bytes and checksum: every other value
    check.enumerate(&format!("{} transfers: every protected byte set to every other value", frames.len()), frames.len(), |i, probe| {
        let (f, a, b) = &frames[i];
        let mut n = 0;
        for pos in 0..=f.content.len() {
            for d in 1..=255u8 {
                let mut g = f.clone();
                if pos < f.content.len() { g.content[pos] ^= d } else { g.sum ^= d }
                never(&g.even(*a, *b), &format!("byte {pos} of the content changed"), probe)?;
                n += 1;
            }
        }
        Ok(n)
    });
    // two changed bytes that cancel out in the checksum, in the xor, or are exchanged
    check.enumerate("every pair of content bytes changed so that the checksum still matches", frames.len(), |i, probe| {
        let (f, a, b) = &frames[i];
        let c = &f.content;
        let mut n = 0;
        for p in 0..c.len() {
            for q in 0..c.len() {
                if p == q { continue; }
                for d in [1u8, 2, 0x10, 0x7f, 0x80, c[q].wrapping_sub(c[p])] {
                    if d == 0 { continue; }
                    let mut g = f.clone();
                    g.content[p] = g.content[p].wrapping_add(d);
                    g.content[q] = g.content[q].wrapping_sub(d);
                    // both inside the CRC field, or one in it, may by luck form another valid code: the reference decides
                    let data = g.even(*a, *b);
                    if classify(&data).complete.is_none() { never(&data, &format!("bytes {p} and {q} changed"), probe)?; n += 1; }
                }
            }
        }
        Ok(n)
    });
    // one check right, the other wrong
    let heads_of = |i: usize| heads[i % heads.len()];
    check.enumerate("every CRC value with the checksum made to match", texts.len() << 16, |i, probe| {
        let f = Frame::of(heads_of(i).0, heads_of(i).1, &texts[i >> 16]);
        let mut g = f.clone();
        g.content[..2].copy_from_slice(&((i & 0xffff) as u16).to_le_bytes());
        g.sum = g.content.iter().fold(0u8, |s, &b| s.wrapping_sub(b));
        if g.content == f.content { return expect(&g.even(250, 250), "accepted").map(|_| 1); }
        never(&g.even(250, 250), "wrong CRC under a matching checksum", probe).map(|_| 1)
    });
    check.enumerate("content changed and CRC recomputed under the old checksum", frames.len(), |i, probe| {
        let (f, a, b) = &frames[i];
        let mut n = 0;
        for pos in 2..f.content.len() { for d in 1..=255u8 {
            let mut g = f.clone();
            g.content[pos] = g.content[pos].wrapping_add(d);
            let crc = crc16(&g.content[2..]).to_le_bytes();
            g.content[..2].copy_from_slice(&crc);
            let sum = g.content.iter().fold(0u8, |s, &b| s.wrapping_sub(b));
            if sum == g.sum { continue; }
            never(&g.even(*a, *b), "wrong checksum under a matching CRC", probe)?;
            n += 1;
        } }
        Ok(n)
    });
    // blocks lost, doubled, exchanged, moved
    let text: Vec<u8> = (0..check.pick(40u8, 90)).map(|k| k.wrapping_mul(29)).collect();
    check.enumerate("blocks dropped, doubled or exchanged", 12, |i, probe| {
        let f = Frame::of(b"Subject", "0", &text);
        let (first, each) = (6 + i / 4, 1 + i % 4 * 3);
        let mut blocks: Vec<Vec<u8>> = vec![f.content[..first].to_vec()];
        blocks.extend(f.content[first..].chunks(each).map(|c| c.to_vec()));
        let build = |blocks: &[Vec<u8>]| {
            let mut t = f.header();
            for b in blocks { t.extend([2, b.len() as u8]); t.extend(b); }
            t.extend([4, f.sum]);
            t
        };
        let original = blocks.concat();
        let mut n = 0;
        let mut test = |changed: Vec<Vec<u8>>, why: &str| -> Result<(), Violation> {
            if changed.concat() == original { return Ok(()); }
            let data = build(&changed);
            n += 1;
            if classify(&data).complete.is_some_and(|c| c.title != b"Subject" || !changed.is_empty()) { return Ok(()); }
            never(&data, why, probe)
        };
        for p in 0..blocks.len() {
            let mut c = blocks.clone();
            c.remove(p);
            test(c, "block dropped")?;
            let mut c = blocks.clone();
            c.insert(p, blocks[p].clone());
            test(c, "block doubled")?;
            for q in p + 1..blocks.len() {
                let mut c = blocks.clone();
                c.swap(p, q);
                test(c, "blocks exchanged")?;
                let mut c = blocks.clone();
                let b = c.remove(p);
                c.insert(q, b);
                test(c, "block moved")?;
                test([&blocks[..p], &blocks[q..]].concat(), "blocks dropped")?;
            }
        }
        Ok(n)
    });
    check.enumerate("every proper prefix", frames.len(), |i, probe| {
        let (f, a, b) = &frames[i];
        let data = f.even(*a, *b);
        for n in 0..data.len() { never(&data[..n], "cut short", probe)?; }
        Ok(data.len() as u64)
    });
    // any single byte of the whole transfer: what the reference says
    check.enumerate("every byte of the whole transfer set to every value", frames.len() * 256, |i, probe| {
        let (f, a, b) = &frames[i / 256];
        let data = f.even(*a, *b);
        for pos in 0..data.len() {
            let mut d = data.clone();
            d[pos] = (i % 256) as u8;
            probe.busy(&d);
            acceptance(&d).map_err(|e| report(e, &d))?;
        }
        Ok(data.len() as u64)
    });
    check.sample("content byte p += 1, byte q -= 1: checksum unchanged, CRC must refuse it");
}

pub fn c08(check: &Check) {
    let thorough = check.thorough();
    // prefixes of valid transfers
    let mut frames: Vec<Vec<u8>> = vec![];
    for t in sample_texts(true) {
        for (a, b) in [(250, 250), (6, 1), (9, 4), (256, 256)] { frames.push(Frame::of(b"A title", "100", &t).even(a, b)); }
    }
    frames.push(Frame::of(b"", "0", b"x").even(250, 250));
    frames.push(Frame::of(&[b'T'; 80], "999999", &[b'q'; 300]).even(256, 256));
    let long: Vec<u8> = (0..check.pick(700usize, 3000)).map(|k| (k * k % 251) as u8).collect();
    for each in [1, 7, 250, 255, 256] { frames.push(Frame::of(b"Long", "0", &long).even(256, each)); }
    check.enumerate(&format!("every prefix of {} valid transfers", frames.len()), frames.len(), |i, probe| {
        let data = &frames[i];
        for n in 0..data.len() {
            probe.busy(&data[..n]);
            match judge(&data[..n], Some(data.len() - n)) {
                Ok("incomplete") => {}
                Ok(v) => return Err(report(format!("a valid transfer of {} bytes is {v} after {n}", data.len()), &data[..n])),
                Err(e) => return Err(report(e, &data[..n])),
            }
        }
        expect(data, "accepted")?;
        Ok(data.len() as u64)
    });
    let judge_all = |label: &str, n: usize, gen: &(dyn Fn(usize) -> Vec<u8> + Sync)| check.enumerate(label, n, |i, probe| {
        let data = gen(i);
        probe.busy(&data);
        judge(&data, None).map(|_| 1).map_err(|e| report(e, &data))
    });
    let full: Vec<u8> = (0..=255).collect();
    judge_all("all byte strings up to 2 bytes", strings_upto(256, 2), &|i| nth_string(&full, i));
    let alphabet = [1u8, 2, 4, 0, 3, b'0', b'a', 5];
    let len = check.pick(7, 8);
    judge_all(&format!("all strings up to {len} over 8 framing bytes"), strings_upto(8, len), &|i| nth_string(&alphabet, i));
    let len = check.pick(7, 8);
    judge_all(&format!("SOH, then all strings up to {len} over 8 framing bytes"), strings_upto(8, len), &|i| { let mut d = vec![1]; d.extend(nth_string(&alphabet, i)); d });
    // complete headers of every short shape
    let letters = [0u8, b'0', b'7', b'a', b' ', 0x1f, 0x7f, 0x80];
    let len = check.pick(6, 7);
    let after: [&[u8]; 4] = [b"", &[2], &[4, 0], &[2, 6, 0, 0, 0, 0, 0, 0, 4, 0]];
    judge_all(&format!("all header texts up to {len} over 8 bytes, alone and continued"), strings_upto(8, len) * 4, &|i| {
        let h = nth_string(&letters, i / 4);
        let mut d = vec![1, h.len() as u8];
        d.extend(h);
        d.extend(after[i % 4]);
        d
    });
    // every header length byte with every fill
    let good = Frame::of(b"Title", "5", b"some text").even(250, 250);
    judge_all("every header length over every amount of header text", 256 * 100, &|i| {
        let mut d = vec![1, (i / 100) as u8];
        d.extend(std::iter::repeat(b'x').take(i % 100));
        d
    });
    judge_all("every header length in front of a valid header", 256, &|i| { let mut d = good.clone(); d[1] = i as u8; d });
    judge_all("every long title", 92, &|i| Frame::of(&vec![b't'; i], "0", b"hi").even(250, 250));
    let digits = ["", "0", "00000000000", "4294967295", "4294967296", "99999999999", "-1", "+1", "1a", " 1", "1 ", "0x1", "\u{660}"];
    judge_all("odd offsets", digits.len(), &|i| Frame::of(b"T", digits[i], b"hi").even(250, 250));
    // a header, then anything
    let len = check.pick(7, 9);
    let header = Frame::of(b"t", "0", b"").header();
    let bytes = [2u8, 4, 0, 1, 6, 3];
    judge_all(&format!("a header, then all strings up to {len} over 6 bytes"), strings_upto(6, len), &|i| { let mut d = header.clone(); d.extend(nth_string(&bytes, i)); d });
    // first blocks of every size, truncated contents
    let f = Frame::of(b"t", "0", b"abcdefgh");
    judge_all("first blocks shorter than CRC and size", 6 * 2, &|i| {
        let n = 1 + i / 2;
        let mut d = f.header();
        d.extend([2, n as u8]);
        d.extend(&f.content[..n]);
        if i % 2 == 0 { let rest = &f.content[n..]; d.extend([2, rest.len() as u8]); d.extend(rest); }
        d.extend([4, f.sum]);
        d
    });
    // every byte in place of a block marker
    let split = f.even(8, 4);
    let marks: Vec<usize> = { let mut at = f.header().len(); let mut v = vec![]; while split[at] == 2 { v.push(at); at += 2 + split[at + 1] as usize; } v.push(at); v };
    judge_all("every byte in place of every block marker", marks.len() * 256, &|i| { let mut d = split.clone(); d[marks[i / 256]] = (i % 256) as u8; d });
    judge_all("every length in place of every block length", (marks.len() - 1) * 256, &|i| { let mut d = split.clone(); d[marks[i / 256] + 1] = (i % 256) as u8; d });
    // complete and corrupt: refused, not incomplete, whatever the sums are
    let sums = 1usize << 16;
    judge_all("two-byte contents under every checksum", sums * 4, &|i| {
        let mut g = frame(b"s", "0", 1, &[(i / 4 & 0xff) as u8]);
        g.sum = g.sum.wrapping_add((i / 4 >> 8) as u8).wrapping_add((i % 4) as u8 * 64);
        g.even(250, 250)
    });
    // sizes that do not fit the content
    let sizes: Vec<u32> = vec![0, 1, 2, 8, 9, 255, 256, 65535, 65536, 1 << 20, if thorough { u32::MAX } else { 1 << 24 }];
    judge_all("wrong recorded sizes under matching checks", sizes.len(), &|i| frame(b"s", "0", sizes[i], &packed(b"abcdefgh")).even(250, 250));
    check.sample("SOH 03 'a' '0' '0' (header complete, separator missing): must be refused");
    check.sample("prefix of n bytes of a valid transfer of N: incomplete, asking for at most N-n");
}
