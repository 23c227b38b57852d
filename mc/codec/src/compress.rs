//! C01-C04: LZHUF compression and decompression against the reference model.

use crate::lz::{self, de_bruijn, Decoded, Model, Token, Tree, MAX_LEN, MIN_LEN, SYMBOLS, WINDOW};
use plusendi::verif::lzhuf::{compress, decompress};
use report::*;
use crate::words::{nth_string, strings_upto};
use std::sync::Arc;

type Gen<'a> = Box<dyn Fn(usize) -> Vec<u8> + Sync + 'a>;

/// Text without a repeated trigram (2197 bytes over 13 letters, then over other letters).
fn filler() -> Vec<u8> {
    let mut out = vec![];
    for base in [b'a', b'n', b'A', b'N'] {
        out.extend(de_bruijn(13, 3).into_iter().map(|x| base + x));
    }
    out
}

/// Deterministic bytes in which repeats of three are rare.
fn noise(n: usize, mut x: u32) -> Vec<u8> {
    (0..n).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 23) as u8 }).collect()
}

/// A text whose encoding uses the match lengths `lens` in turn: pieces copied out of the recent text.
fn pieces(lens: impl Iterator<Item = usize>, stop: impl Fn(usize) -> bool) -> Vec<u8> {
    let mut text = noise(1500, 7);
    let mut at = 0usize;
    for (i, len) in lens.enumerate() {
        if stop(i) { break; }
        let lo = text.len() - 1400;
        at = (at * 31 + 97 + i) % 1300;
        let from = lo + at;
        let piece = text[from..from + len].to_vec();
        text.extend(piece);
    }
    text
}

/// A text whose greedy encoding is `distinct` literals followed by copies of exactly the lengths
/// `lens`: every piece repeats recent text, and the next piece starts with a byte that never followed
/// an occurrence of this piece in the window.
fn exact_pieces(lens: &[usize], distinct: usize) -> Vec<u8> {
    let mut text: Vec<u8> = (0..distinct).map(|i| (i * 37 % 256) as u8).collect();
    let mut barred = [false; 256];
    let mut salt = 1usize;
    'pieces: for &len in lens {
        let lo = text.len().saturating_sub(1900);
        let span = text.len() - lo - len;
        for attempt in 0..span {
            salt = (salt * 1103515245 + 12345) & 0x7fffffff;
            let from = lo + (if attempt < 50 { salt >> 8 } else { attempt }) % span;
            if barred[text[from] as usize] { continue; }
            let piece = text[from..from + len].to_vec();
            let start = text.len();
            text.extend(&piece);
            barred = [false; 256];
            let lo = start.saturating_sub(WINDOW + 1);
            for at in lo..start {
                if at + len < text.len() && text[at..at + len] == piece[..] {
                    barred[text[at + len] as usize] = true;
                }
            }
            continue 'pieces;
        }
        // no source: go on unconstrained
        let piece = text[lo..lo + len].to_vec();
        text.extend(piece);
        barred = [false; 256];
    }
    text
}

/// Fibonacci-like multiplicities whose sum stays below `total`, smallest first.
fn fibonacci(base: usize, total: usize) -> Vec<usize> {
    let (mut x, mut y) = (base, base);
    let mut out = vec![];
    let mut sum = 0;
    while sum + x <= total { out.push(x); sum += x; let z = x + y; x = y; y = z; }
    out
}

/// Number of tokens after which the table is rebuilt first / next.
const FIRST_REBUILD: usize = 0x8000 - SYMBOLS;

/// Texts that need much history to build: (name, text).
fn long_prefixes(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    let f = filler();
    out.push(("filler 2048".into(), f[..2048].to_vec()));
    out.push(("filler 4096".into(), f[..4096].to_vec()));
    // literals only, all symbols equally often: table rebuilt near-flat
    let lits = noise(FIRST_REBUILD + 40, 99);
    out.push(("noise to the first rebuild".into(), lits));
    // deep codes by match lengths
    for base in if thorough { vec![300, 330, 340, 350, 360, 370, 380, 390, 400, 420] } else { vec![300, 340, 360, 380, 400] } {
        let fib = fibonacci(base, FIRST_REBUILD - 64);
        let lens: Vec<usize> = fib.iter().enumerate().flat_map(|(k, &n)| std::iter::repeat(20 - k).take(n)).collect();
        out.push((format!("match lengths by Fibonacci weights of {base}"), exact_pieces(&lens, 48)));
    }
    // runs: one symbol dominates
    out.push(("run".into(), vec![b'a'; 60 * (FIRST_REBUILD - 20)]));
    // two rebuilds
    out.push(("noise over two rebuilds".into(), noise(FIRST_REBUILD + 0x4000 + 300, 5)));
    let lens: Vec<usize> = (0..FIRST_REBUILD + 0x4000).map(|i| if i % 3 == 0 { 3 + i / 3 % 58 } else { 3 + i % 7 }).collect();
    out.push(("mixed match lengths over two rebuilds".into(), pieces(lens.into_iter(), |_| false)));
    if thorough {
        out.push(("noise over four rebuilds".into(), noise(FIRST_REBUILD + 3 * 0x4000 + 300, 3)));
    }
    // words
    out.push(("300 kB of words".into(), words(300_000)));
    out
}

/// Text of words, the frequent ones short, in lines, with words repeated at all distances.
fn words(len: usize) -> Vec<u8> {
    let mut state = 12345u32;
    let mut next = move |n: u32| { state = state.wrapping_mul(1664525).wrapping_add(1013904223); (state >> 8) % n };
    let mut list: Vec<Vec<u8>> = vec![];
    for k in 0..600u32 { let n = 1 + k / 60 + next(4); list.push((0..n).map(|_| b"etaoinshrdlucmfwypvbgkjqxz"[(next(26) * next(26) / 26) as usize]).collect()); }
    let mut t = vec![];
    let mut column = 0;
    while t.len() < len {
        let k = next(600) * next(600) / 600 * next(600) / 600;
        t.extend(&list[k as usize]);
        column += list[k as usize].len() + 1;
        if column > 60 { t.extend(b"\r\n"); column = 0; } else { t.push(b' '); }
    }
    t.truncate(len);
    t
}

fn texts(check: &Check) -> Vec<(String, usize, Gen<'static>)> {
    let mut v: Vec<(String, usize, Gen)> = vec![];
    let full: Vec<u8> = (0..=255).collect();
    for (name, alphabet, quick, thorough) in [
        ("two letters", b"ab".to_vec(), 15, 18),
        ("space and a letter", b" a".to_vec(), 13, 16),
        ("0x00 and 0xff", vec![0, 255], 11, 14),
        ("three letters", b"abc".to_vec(), 9, 12),
        ("five letters", b"abcd ".to_vec(), 6, 8),
        ("all byte values", full, 2, 3),
    ] {
        let len = check.pick(quick, thorough);
        let n = strings_upto(alphabet.len(), len);
        v.push((format!("all texts over {name} up to {len} bytes"), n, Box::new(move |i| nth_string(&alphabet, i))));
    }
    let max = check.pick(4400, 9000);
    for b in [b' ', b'a', 0u8, 255] {
        v.push((format!("runs of {b:#04x}, 0 to {max} bytes"), max + 1, Box::new(move |i| vec![b; i])));
    }
    let max = check.pick(4600, 9000);
    v.push((format!("prefixes of text without repeats, 0 to {max} bytes"), max + 1, Box::new(move |i| filler()[..i].to_vec())));
    v.push((format!("prefixes of text with short repeats, 0 to {max} bytes"), max + 1, Box::new(move |i| {
        (0..i).map(|k| if k % 7 < 4 { b"the "[k % 7] } else { b'a' + (k / 7 * (k % 7) % 26) as u8 }).collect()
    })));
    let max = check.pick(6000, 12000);
    let text = words(max);
    v.push((format!("prefixes of text made of words, 0 to {max} bytes"), max + 1, Box::new(move |i| text[..i].to_vec())));
    // periodic
    let (periods, step) = check.pick((2200, 1), (4200, 1));
    v.push((format!("periodic texts, periods 1 to {periods}, cut at 4 places"), periods * 4, Box::new(move |i| {
        let p = 1 + i / 4 * step;
        let n = [p + 2, p + 3, 2 * p + 59, 3 * p + 61][i % 4];
        let f = filler();
        (0..n).map(|k| f[k % p]).collect()
    })));
    // a repeat of every length at every distance, early, around and after the window's first wrap
    let lens = [2usize, 3, 4, 59, 60, 61, 62];
    let leads: Vec<usize> = check.pick(vec![0, 60, 1988, 2040, 2048, 3000], vec![0, 1, 59, 60, 61, 1000, 1987, 1988, 1989, 2040, 2047, 2048, 2049, 3000, 4100]);
    let step = check.pick(3, 1);
    let dists: Vec<usize> = (1..2110).filter(|d| step == 1 || d % step == 1 || *d < 130 || (1900..2110).contains(d) || d % 64 < 2).collect();
    let n = dists.len() * lens.len() * leads.len();
    v.push((format!("a repeat at {} distances 1..2109 x {} lengths x {} positions", dists.len(), lens.len(), leads.len()), n, Box::new(move |i| {
        let d = dists[i / lens.len() / leads.len()];
        let len = lens[i / leads.len() % lens.len()];
        let lead = leads[i % leads.len()];
        let mut t = filler()[..lead + d].to_vec();
        for _ in 0..len { t.push(t[t.len() - d]); }
        t.push(0xfe);
        t
    })));
    // sequences of pieces on top of a wrapped window
    let menu: Vec<(usize, usize)> = vec![(1, 5), (2, 61), (59, 60), (60, 59), (61, 3), (1200, 60), (1987, 60), (1988, 61), (1989, 10), (2047, 3), (2048, 60), (0, 3), (0, 70)];
    let depth = check.pick(4, 5);
    let lead = 1990;
    let n = strings_upto(menu.len(), depth);
    v.push((format!("all sequences of up to {depth} of {} repeats and fresh pieces after {lead} bytes", menu.len()), n, Box::new(move |i| {
        let ops = nth_string(&(0..menu.len() as u8).collect::<Vec<_>>(), i);
        let f = filler();
        let mut t = f[..lead].to_vec();
        let mut fresh = lead;
        for op in ops {
            let (d, len) = menu[op as usize];
            for _ in 0..len {
                if d == 0 { t.push(f[fresh]); fresh += 1; } else { t.push(if d <= t.len() { t[t.len() - d] } else { b' ' }); }
            }
        }
        t
    })));
    // long histories, then every short ending
    let alphabet = b"a \xff".to_vec();
    let ends = strings_upto(3, check.pick(1, 3));
    let prefixes = long_prefixes(check.thorough());
    let n = prefixes.len() * ends;
    let names = prefixes.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join("; ");
    let prefixes = Arc::new(prefixes);
    let p2 = prefixes.clone();
    v.push((format!("long histories ({names}) with every ending"), n, Box::new(move |i| {
        let mut t = prefixes[i / ends].1.clone();
        t.extend(nth_string(&alphabet, i % ends));
        t
    })));
    // sizes beyond 16, 20 and 24 bits
    let sizes = check.pick(vec![65_530, 65_600, 1_048_700, 3_000_000], vec![65_530, 65_600, 1_048_700, 17_000_000]);
    v.push((format!("words, noise, runs of {sizes:?} bytes, a run of 17 MB"), 3 * sizes.len() + 1, Box::new(move |i| match (i % 3, sizes.get(i / 3)) {
        (0, Some(n)) => words(*n),
        (1, Some(n)) => { let mut x = 1u32; (0..*n).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect() }
        (_, Some(n)) => (0..*n).map(|k| if k % 100_000 == 77 { b'b' } else { b'a' }).collect(),
        (_, None) => vec![b'a'; 17_000_001],
    })));
    // every symbol as the one that comes when the table is rebuilt, a few tokens before and after it
    let near = check.pick(1, 3);
    let lits: Vec<u8> = (0..19u8).flat_map(|b| de_bruijn(13, 3).into_iter().map(move |x| 13 * b + x)).collect();
    v.push((format!("each of {SYMBOLS} symbols at the first rebuild, {near} before to {near} after"), SYMBOLS * (2 * near + 1), Box::new(move |i| {
        let (symbol, at) = (i % SYMBOLS, FIRST_REBUILD - near + i / SYMBOLS);
        let mut t = lits[..at].to_vec();
        let mut again = |t: &mut Vec<u8>, len: usize, k: usize| { let from = t.len() - 1500 + k * 61 % 1400; let piece = t[from..from + len].to_vec(); t.extend(piece); };
        if symbol < 256 {
            t.push(symbol as u8);
            for k in 0..30usize { t.extend([symbol as u8, (symbol + k * 11) as u8]); }
        } else {
            for k in 0..30 { again(&mut t, symbol - 256 + MIN_LEN, k); }
        }
        for k in 0..58 { again(&mut t, MIN_LEN + k, k); }
        t.extend((0..=255).map(|k: u8| k.wrapping_mul(37)));
        t
    })));
    // long history cut around the rebuild
    let cuts = check.pick(40, 120);
    v.push((format!("histories cut at {cuts} places around the first rebuild"), cuts * 2, Box::new(move |i| {
        let p = &p2[2 + i % 2].1; // noise; first Fibonacci text
        let end = if i % 2 == 0 { p.len() } else { p.len() };
        p[..end - i / 2].to_vec()
    })));
    v
}

fn fail(what: String, case: &str, text: &[u8]) -> Violation {
    Violation { what, size: text.len(), replay: map([("case", case.into()), ("input", hex(text).into())]) }
}

pub fn roundtrip_one(text: &[u8]) -> Result<u64, String> {
    let packed = guarded(|| compress(text)).map_err(|e| format!("compressing {} {e}", show(text)))?;
    match guarded(|| decompress(&packed, text.len())) {
        Err(e) => Err(format!("decompressing the compression of {} {e}", show(text))),
        Ok(None) => Err(format!("the compression of {} does not decompress", show(text))),
        Ok(Some(back)) if back != text => {
            let at = back.iter().zip(text).position(|(a, b)| a != b).unwrap_or(back.len().min(text.len()));
            Err(format!("{} comes back different at byte {at}: {}", show(text), show(&back)))
        }
        Ok(Some(_)) => Ok(text.len() as u64),
    }
}

pub fn interop_one(text: &[u8]) -> Result<(u64, usize), String> {
    let packed = guarded(|| compress(text)).map_err(|e| format!("compressing {} {e}", show(text)))?;
    let mut tokens = 0;
    let mut tree = Tree::new();
    let mut longest = 0;
    match lz::decode_tokens(&packed, text.len(), |t| {
        tokens += 1;
        longest = longest.max(tree.code(Model::symbol(t)).len());
        tree.update(Model::symbol(t));
    }) {
        Decoded::Exact(back, bits) => {
            if back != text {
                return Err(format!("an independent decoder reads {} as {}", show(text), show(&back)));
            }
            if (bits + 7) / 8 != packed.len() {
                return Err(format!("the compression of {} has {} bytes where its last token ends at bit {bits}", show(text), packed.len()));
            }
            if bits % 8 != 0 && packed[packed.len() - 1] & (0xff >> (bits % 8)) != 0 {
                return Err(format!("the compression of {} is not padded with zero bits", show(text)));
            }
            Ok((tokens, longest))
        }
        Decoded::TooFar => Err(format!("the compression of {} copies from farther back than the window", show(text))),
        Decoded::Short => Err(format!("the compression of {} ends too early for an independent decoder", show(text))),
        Decoded::Overrun(_) => Err(format!("the compression of {} describes more bytes than the text has", show(text))),
    }
}

pub fn c01(check: &Check) {
    for (label, n, gen) in texts(check) {
        check.enumerate(&label, n, |i, probe| {
            let text = gen(i);
            probe.busy(&text);
            roundtrip_one(&text).map_err(|e| fail(e, "roundtrip", &text))
        });
    }
    check.sample("all texts over {a,b}: \"\", \"a\", \"b\", \"aa\", ... each compressed and decompressed");
    check.sample(format!("a repeat of 61 bytes at distance 1988 after 2040 bytes; periodic text of period 2048"));
}

pub fn c03(check: &Check) {
    let longest = std::sync::atomic::AtomicUsize::new(0);
    for (label, n, gen) in texts(check) {
        check.enumerate(&label, n, |i, probe| {
            let text = gen(i);
            probe.busy(&text);
            let (tokens, l) = interop_one(&text).map_err(|e| fail(e, "interop", &text))?;
            longest.fetch_max(l, std::sync::atomic::Ordering::Relaxed);
            Ok(tokens)
        });
    }
    check.note("longest_code_bits_seen", longest.into_inner());
    check.sample("every text of C01, its compression decoded by the reference decoder");
}

/// A stream made of tokens: what the format defines it to mean, against the decoder.
pub fn stream_one(model: &Model, label: &str) -> Result<u64, Violation> {
    let stream = model.stream();
    let want = model.text();
    let bad = |what: String| Violation {
        what, size: stream.len(),
        replay: map([("case", "stream".into()), ("space", label.into()), ("input", hex(&stream).into()), ("size", want.len().into()), ("expected", hex(want).into())]),
    };
    match guarded(|| decompress(&stream, want.len())) {
        Err(e) => Err(bad(format!("decompressing a valid stream {e}"))),
        Ok(None) => Err(bad(format!("a valid stream of {} is refused", show(want)))),
        Ok(Some(got)) if got != want => {
            let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
            Err(bad(format!("a valid stream of {} decompresses differently from byte {at}: {}", show(want), show(&got))))
        }
        Ok(Some(_)) => Ok(1),
    }
}

fn with_literals(text: &[u8]) -> Model {
    let mut m = Model::new();
    for &b in text { m.write(Token::Literal(b)); }
    m
}

/// Drives the table with symbols chosen by `pick` until `left` tokens before the next rebuild.
fn drive(m: &mut Model, left: usize, pick: impl Fn(usize) -> Token) {
    let mut i = 0;
    while m.tree.until_rebuild() > left { m.write(pick(i)); i += 1; }
}

fn all_tokens() -> Vec<Token> {
    (0..=255).map(Token::Literal).chain((MIN_LEN..=MAX_LEN).map(|len| Token::Copy { dist: 2 + len, len })).collect()
}

pub fn c02(check: &Check) {
    let small = [
        Token::Literal(b'a'), Token::Copy { dist: 1, len: 3 }, Token::Literal(b' '), Token::Copy { dist: 2, len: 60 },
        Token::Copy { dist: 2048, len: 3 }, Token::Literal(0xff), Token::Copy { dist: 257, len: 4 }, Token::Copy { dist: 60, len: 60 },
    ];
    let depth = check.pick(6, 7);
    let ids: Vec<u8> = (0..small.len() as u8).collect();
    let label = format!("all sequences of up to {depth} of {} tokens", small.len());
    check.enumerate(&label, strings_upto(small.len(), depth), |i, probe| {
        let mut m = Model::new();
        let ops = nth_string(&ids, i);
        for &op in &ops { m.write(small[op as usize]); }
        probe.busy(&m.bits.bytes);
        stream_one(&m, &label)?;
        Ok(ops.len() as u64)
    });
    // every distance and length on the blank window and on a full one, alone and followed by a literal
    let full = with_literals(&filler()[..2048]);
    let wrapped = with_literals(&filler()[..5000]);
    for (name, base) in [("the blank window", Model::new()), ("a full window", full.clone()), ("a wrapped window", wrapped)] {
        let label = format!("every distance and length on {name}");
        check.enumerate(&label, WINDOW * (MAX_LEN - MIN_LEN + 1), |i, probe| {
            let (dist, len) = (1 + i % WINDOW, MIN_LEN + i / WINDOW);
            let mut m = base.clone();
            m.write(Token::Copy { dist, len });
            m.write(Token::Literal(b'!'));
            probe.busy(&m.bits.bytes);
            stream_one(&m, &label)?;
            Ok(2)
        });
    }
    // every fill of the window x extreme tokens x a second token
    let extremes: Vec<Token> = [(1, 3), (1, 60), (2, 60), (59, 60), (60, 60), (61, 60), (1987, 60), (1988, 60), (1989, 60), (2047, 60), (2048, 60), (2048, 3)]
        .iter().map(|&(dist, len)| Token::Copy { dist, len }).collect();
    let fills = check.pick(4300, 9000);
    let f = filler();
    let label = format!("every window fill 0..{} x {} extreme copies", fills - 1, extremes.len());
    check.enumerate(&label, fills, |i, probe| {
        let base = with_literals(&f[..i]);
        for &t in &extremes {
            let mut m = base.clone();
            m.write(t);
            m.write(Token::Literal(b'!'));
            m.write(Token::Copy { dist: 61, len: 60 });
            probe.busy(&m.bits.bytes);
            stream_one(&m, &label)?;
        }
        Ok(3 * extremes.len() as u64)
    });
    // code table: every symbol just before, at and after rebuilds, for several weights of the symbols
    let tokens = all_tokens();
    let skew: Vec<Vec<Token>> = vec![
        vec![Token::Literal(b'a')],
        tokens.clone(),
        (0..16).flat_map(|k| std::iter::repeat(tokens[k * 19]).take(1 << (12 - k.min(12)))).collect(),
        tokens[256..].to_vec(),
    ];
    let rounds = check.pick(3, 6);
    let offsets = check.pick(vec![2usize, 1, 0], vec![5, 4, 3, 2, 1, 0]);
    let mut states: Vec<(String, Model)> = vec![];
    for (k, weights) in skew.iter().enumerate() {
        let mut m = Model::new();
        for r in 0..rounds {
            for &left in &offsets {
                drive(&mut m, left, |i| weights[i % weights.len()]);
                states.push((format!("weights {k}, {left} tokens before rebuild {}", r + 1), m.clone()));
            }
            m.write(weights[0]);
            assert_eq!(m.tree.rebuilds, r + 1);
            states.push((format!("weights {k}, after rebuild {}", r + 1), m.clone()));
        }
    }
    // deep codes: Fibonacci weights
    let mut longest = 0;
    for base in check.pick(vec![1, 200, 300, 320, 340, 360, 400], vec![1, 20, 100, 200, 250, 290, 300, 310, 320, 330, 340, 360, 380, 400]) {
        let mut m = Model::new();
        'weights: for (k, n) in fibonacci(base, usize::MAX / 8).into_iter().take(20).enumerate() {
            for _ in 0..n {
                if m.tree.until_rebuild() == 0 { break 'weights; }
                m.write(tokens[if k < 2 { k } else { (k * 53) % SYMBOLS }]);
            }
        }
        longest = longest.max((0..SYMBOLS).map(|s| m.tree.code(s).len()).max().unwrap());
        states.push((format!("Fibonacci weights of {base}"), m));
    }
    check.note("longest_code_bits", longest);
    let label = format!("all {SYMBOLS} symbols in {} states of the code table around rebuilds and with the longest codes", states.len());
    check.enumerate(&label, states.len() * tokens.len(), |i, probe| {
        let mut m = states[i / tokens.len()].1.clone();
        // the symbol, then what it did to the table: its next occurrences and every other symbol
        for _ in 0..40 { m.write(tokens[i % tokens.len()]); }
        for k in 0..tokens.len() { m.write(tokens[(i + k * 7) % tokens.len()]); }
        probe.busy(&[]);
        stream_one(&m, &format!("{label}: {}", states[i / tokens.len()].0))?;
        Ok(40 + tokens.len() as u64)
    });
    check.sample("[Literal 'a', Copy{dist:2048,len:3}, Copy{dist:2,len:60}] written by the reference model, read by the decoder");
}

/// Any bytes with any declared size. `valid`: the stream has no surplus bytes, so it must be accepted.
pub fn hostile_one(data: &[u8], size: usize) -> Result<(), String> {
    let describe = || format!("decompressing {} declared as {size} bytes", hex(&data[..data.len().min(80)]));
    let got = guarded(|| decompress(data, size)).map_err(|e| format!("{} {e}", describe()))?;
    if let Some(got) = &got {
        if got.len() != size { return Err(format!("{} returns {} bytes", describe(), got.len())); }
    }
    match (lz::decode(data, size), got) {
        (Decoded::Short, Some(got)) => Err(format!("{} returns {} although the stream ends early", describe(), show(&got))),
        (Decoded::Exact(want, _), Some(got)) | (Decoded::Overrun(want), Some(got)) if want != got =>
            Err(format!("{} returns {} instead of {}", describe(), show(&got), show(&want))),
        (Decoded::Exact(_, bits), None) if (bits + 7) / 8 == data.len() => Err(format!("{} is refused although the stream is valid", describe())),
        _ => Ok(()),
    }
}

pub fn c04(check: &Check) {
    let bad = |e: String, data: &[u8], size: usize| Violation {
        what: e, size: data.len(), replay: map([("case", "hostile".into()), ("input", hex(data).into()), ("size", size.into())]),
    };
    let one = |data: &[u8], size: usize, probe: &Probe| -> Result<(), Violation> {
        probe.busy(data);
        hostile_one(data, size).map_err(|e| bad(e, data, size))
    };
    let sizes = [0usize, 1, 2, 3, 4, 5, 59, 60, 61, 62, 63, 120, 1000];
    let len = check.pick(2, 3);
    let full: Vec<u8> = (0..=255).collect();
    check.enumerate(&format!("all byte strings up to {len} bytes x {} declared sizes", sizes.len()), strings_upto(256, len), |i, probe| {
        let data = nth_string(&full, i);
        for &s in &sizes { one(&data, s, probe)?; }
        Ok(sizes.len() as u64)
    });
    let edge = [0u8, 0xff, 0x7f, 0x80, 0x55];
    let len = check.pick(7, 8);
    check.enumerate(&format!("all strings up to {len} of {} extreme bytes x {} sizes", edge.len(), sizes.len()), strings_upto(edge.len(), len), |i, probe| {
        let data = nth_string(&edge, i);
        for &s in &sizes { one(&data, s, probe)?; }
        Ok(sizes.len() as u64)
    });
    // damaged and misdeclared valid streams
    let f = filler();
    let mut bases: Vec<Model> = vec![];
    let mut m = with_literals(b"hello ");
    m.write(Token::Copy { dist: 6, len: 60 });
    m.write(Token::Copy { dist: 2048, len: 60 });
    m.write(Token::Literal(b'x'));
    m.write(Token::Copy { dist: 1, len: 59 });
    bases.push(m.clone());
    m.write(Token::Literal(0xff));
    bases.push(m);
    bases.push(with_literals(&f[..check.pick(120, 400)]));
    let mut m = Model::new();
    for k in 0..check.pick(40, 100) { m.write(Token::Copy { dist: 1 + k * 171 % 2048, len: 3 + k * 13 % 58 }); }
    bases.push(m);
    for (k, base) in bases.iter().enumerate() {
        let stream = base.stream();
        let size = base.text().len();
        check.enumerate(&format!("valid stream {k}: every truncation and declared sizes 0..{}", size + 140), stream.len() + 1, |i, probe| {
            let cut = &stream[..i];
            if i == stream.len() {
                for s in 0..size + 140 { one(cut, s, probe)?; }
                Ok((size + 140) as u64)
            } else {
                for s in [1, size / 2, size.saturating_sub(1), size, size + 1, size + 60] { one(cut, s, probe)?; }
                Ok(6)
            }
        });
        check.enumerate(&format!("valid stream {k}: every byte replaced by every value"), stream.len() * 256, |i, probe| {
            let mut d = stream.clone();
            d[i / 256] = (i % 256) as u8;
            one(&d, size, probe)?;
            one(&d, size + 70, probe)?;
            Ok(2)
        });
    }
    // long hostile streams: all ones, all zeros, alternating, across rebuilds
    let big = [0usize, 1, 40_000, 70_000, 200_000, 1 << 20];
    check.enumerate("long uniform streams across rebuilds", 8 * big.len(), |i, probe| {
        let byte = [0u8, 0xff, 0xaa, 0x0f, 0x80, 0x01, 0x49, 0xe3][i % 8];
        one(&vec![byte; 30_000], big[i / 8], probe)?;
        Ok(1)
    });
    check.sample("e5 00 declared as 3 bytes; a valid stream with byte 17 set to each of 256 values");
}
