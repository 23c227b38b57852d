//! Shared by the enumerations.

/// The `i`-th string over `alphabet`, shortest first.
pub fn nth_string(alphabet: &[u8], mut i: usize) -> Vec<u8> {
    let k = alphabet.len();
    let mut len = 0;
    let mut count = 1;
    while i >= count { i -= count; count *= k; len += 1; }
    (0..len).map(|_| { let c = alphabet[i % k]; i /= k; c }).collect()
}

pub fn strings_upto(k: usize, len: usize) -> usize { (0..=len).map(|l| k.pow(l as u32)).sum() }

/// Polynomial division, one bit at a time.
pub fn crc16(data: &[u8]) -> u16 {
    let mut crc = 0u32;
    for &b in data {
        for i in (0..8).rev() {
            let top = crc >> 15 & 1;
            crc = crc << 1 & 0xffff;
            if top ^ (b >> i & 1) as u32 == 1 { crc ^= 0x1021; }
        }
    }
    crc as u16
}
