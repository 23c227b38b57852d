//! Reference model of the LZHUF stream format (Okumura/Yoshizaki LZHUF as used by FBB and Winlink:
//! N = 2048, F = 60, threshold 2), written from the format's definition and independent of the code
//! under test: an ordered list of nodes, growing vectors, wide integers, a generated distance code.

pub const WINDOW: usize = 2048;
pub const MAX_LEN: usize = 60;
pub const MIN_LEN: usize = 3;
pub const SYMBOLS: usize = 256 + MAX_LEN - MIN_LEN + 1;
const NODES: usize = 2 * SYMBOLS - 1;
const ROOT: usize = NODES - 1;
const LIMIT: u32 = 0x8000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Token {
    Literal(u8),
    Copy { dist: usize, len: usize },
}

#[derive(Clone, Copy)]
enum Node {
    Leaf(usize),
    /// Children are nodes `first` (bit 0) and `first + 1` (bit 1).
    Inner(usize),
}

/// Adaptive Huffman tree: nodes in order of non-decreasing frequency, siblings adjacent.
#[derive(Clone)]
pub struct Tree {
    freq: Vec<u32>,
    node: Vec<Node>,
    parent: Vec<usize>,
    leaf: Vec<usize>,
    pub rebuilds: usize,
}

impl Tree {
    pub fn new() -> Tree {
        let mut t = Tree { freq: vec![], node: vec![], parent: vec![0; NODES], leaf: vec![0; SYMBOLS], rebuilds: 0 };
        for s in 0..SYMBOLS {
            t.freq.push(1);
            t.node.push(Node::Leaf(s));
        }
        let mut first = 0;
        while t.node.len() < NODES {
            t.freq.push(t.freq[first] + t.freq[first + 1]);
            t.node.push(Node::Inner(first));
            first += 2;
        }
        t.link();
        t
    }

    fn link(&mut self) {
        for i in 0..NODES {
            match self.node[i] {
                Node::Leaf(s) => self.leaf[s] = i,
                Node::Inner(first) => { self.parent[first] = i; self.parent[first + 1] = i; }
            }
        }
    }

    fn rebuild(&mut self) {
        self.rebuilds += 1;
        let leaves: Vec<(u32, Node)> = (0..NODES)
            .filter(|&i| matches!(self.node[i], Node::Leaf(_)))
            .map(|i| ((self.freq[i] + 1) / 2, self.node[i]))
            .collect();
        let mut list = leaves;
        let mut first = 0;
        while list.len() < NODES {
            let f = list[first].0 + list[first + 1].0;
            // behind every node that is not heavier
            let at = list.iter().rposition(|n| n.0 <= f).unwrap() + 1;
            list.insert(at, (f, Node::Inner(first)));
            first += 2;
        }
        self.freq = list.iter().map(|n| n.0).collect();
        self.node = list.iter().map(|n| n.1).collect();
        self.link();
    }

    pub fn update(&mut self, symbol: usize) {
        if self.freq[ROOT] == LIMIT { self.rebuild(); }
        let mut c = self.leaf[symbol];
        loop {
            let f = self.freq[c] + 1;
            self.freq[c] = f;
            let mut last = c;
            while last < ROOT && self.freq[last + 1] < f { last += 1; }
            if last != c {
                self.freq.swap(c, last);
                self.node.swap(c, last);
                for i in [c, last] {
                    match self.node[i] {
                        Node::Leaf(s) => self.leaf[s] = i,
                        Node::Inner(first) => { self.parent[first] = i; self.parent[first + 1] = i; }
                    }
                }
                c = last;
            }
            if c == ROOT { break; }
            c = self.parent[c];
        }
    }

    /// Total frequency: the next symbol rebuilds the tree when this reaches the limit.
    pub fn total(&self) -> u32 { self.freq[ROOT] }
    pub fn until_rebuild(&self) -> usize { (LIMIT - self.total()) as usize }

    /// Code of a symbol, first bit first.
    pub fn code(&self, symbol: usize) -> Vec<bool> {
        let mut bits = vec![];
        let mut c = self.leaf[symbol];
        while c != ROOT {
            bits.push(c & 1 == 1);
            c = self.parent[c];
        }
        bits.reverse();
        bits
    }
}

/// Static prefix code of the upper six bits of a distance: (bits, value left-aligned in a byte).
pub fn distance_code() -> Vec<(u32, u32)> {
    let mut codes = vec![];
    let mut next = 0u32;
    for (len, count) in [(3, 1), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)] {
        for _ in 0..count {
            codes.push((len, next));
            next += 1 << (8 - len);
        }
    }
    assert_eq!(next, 256);
    assert_eq!(codes.len(), 64);
    codes
}

#[derive(Clone, Default)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub len: usize,
}

impl Bits {
    pub fn push(&mut self, bit: bool) {
        if self.len % 8 == 0 { self.bytes.push(0); }
        if bit { *self.bytes.last_mut().unwrap() |= 0x80 >> (self.len % 8); }
        self.len += 1;
    }
}

/// State of a stream being written or read: tree, window and what has been produced.
#[derive(Clone)]
pub struct Model {
    pub tree: Tree,
    pub bits: Bits,
    /// Blank window followed by all text produced so far.
    history: Vec<u8>,
    codes: std::sync::Arc<Vec<(u32, u32)>>,
    pub longest_code: usize,
}

impl Model {
    pub fn new() -> Model {
        Model { tree: Tree::new(), bits: Bits::default(), history: vec![b' '; WINDOW], codes: std::sync::Arc::new(distance_code()), longest_code: 0 }
    }

    pub fn text(&self) -> &[u8] { &self.history[WINDOW..] }

    fn apply(&mut self, token: Token) {
        match token {
            Token::Literal(b) => self.history.push(b),
            Token::Copy { dist, len } => {
                assert!((1..=WINDOW).contains(&dist) && (MIN_LEN..=MAX_LEN).contains(&len));
                for _ in 0..len {
                    let b = self.history[self.history.len() - dist];
                    self.history.push(b);
                }
            }
        }
    }

    pub fn symbol(token: Token) -> usize {
        match token {
            Token::Literal(b) => b as usize,
            Token::Copy { len, .. } => 256 + len - MIN_LEN,
        }
    }

    /// Appends a token to the stream.
    pub fn write(&mut self, token: Token) {
        let symbol = Self::symbol(token);
        let code = self.tree.code(symbol);
        self.longest_code = self.longest_code.max(code.len());
        for bit in code { self.bits.push(bit); }
        self.tree.update(symbol);
        if let Token::Copy { dist, .. } = token {
            let d = dist - 1;
            let (len, value) = self.codes[d >> 6];
            for i in 0..len { self.bits.push(value >> (7 - i) & 1 == 1); }
            for i in (0..6).rev() { self.bits.push(d >> i & 1 == 1); }
        }
        self.apply(token);
    }

    pub fn stream(&self) -> Vec<u8> { self.bits.bytes.clone() }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Decoded {
    /// Exactly the declared size; number of bits read.
    Exact(Vec<u8>, usize),
    /// The stream ended first.
    Short,
    /// A copy runs past the declared size: the text cut at the declared size.
    Overrun(Vec<u8>),
    /// A copy from farther back than the window (the distance code has room for 4096): undefined.
    TooFar,
}

/// Reference decoder.
pub fn decode(data: &[u8], size: usize) -> Decoded {
    decode_tokens(data, size, |_| ())
}

pub fn decode_tokens(data: &[u8], size: usize, mut seen: impl FnMut(Token)) -> Decoded {
    let codes = distance_code();
    let mut at = 0;
    let mut bit = || -> Option<usize> {
        let byte = *data.get(at / 8)?;
        let b = byte >> (7 - at % 8) & 1;
        at += 1;
        Some(b as usize)
    };
    let mut model = Model::new();
    while model.text().len() < size {
        let mut c = ROOT;
        let symbol = loop {
            match model.tree.node[c] {
                Node::Leaf(s) => break s,
                Node::Inner(first) => match bit() { Some(b) => c = first + b, None => return Decoded::Short },
            }
        };
        model.tree.update(symbol);
        let token = if symbol < 256 {
            Token::Literal(symbol as u8)
        } else {
            let (mut value, mut len) = (0u32, 0);
            let upper = loop {
                let Some(b) = bit() else { return Decoded::Short };
                value = value << 1 | b as u32;
                len += 1;
                if let Some(i) = codes.iter().position(|&(l, v)| l == len && v >> (8 - l) == value) { break i; }
            };
            let mut lower = 0;
            for _ in 0..6 {
                let Some(b) = bit() else { return Decoded::Short };
                lower = lower << 1 | b;
            }
            if (upper << 6 | lower) >= WINDOW { return Decoded::TooFar; }
            Token::Copy { dist: (upper << 6 | lower) + 1, len: symbol - 256 + MIN_LEN }
        };
        seen(token);
        model.apply(token);
    }
    let mut text = model.history.split_off(WINDOW);
    if text.len() > size {
        text.truncate(size);
        Decoded::Overrun(text)
    } else {
        Decoded::Exact(text, at)
    }
}

/// de Bruijn sequence over `k` symbols, order `n`: every n-gram occurs once.
pub fn de_bruijn(k: usize, n: usize) -> Vec<u8> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<u8>) {
        if t > n {
            if n % p == 0 { out.extend(a[1..=p].iter().map(|&x| x as u8)); }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    let mut out = vec![];
    db(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    out
}
