//! C05: CRC-16/XMODEM against its bit-by-bit definition.

use crate_crc::crc16;
use plusendi::verif as crate_crc;
use crate::words::crc16 as reference;
use report::*;

pub fn one(data: &[u8]) -> Result<(), String> {
    let got = guarded(|| crc16::crc16(data)).map_err(|e| format!("checksum of {} {e}", show(data)))?;
    let want = reference(data);
    if got == want { Ok(()) } else { Err(format!("checksum of {} is {got:#06x}, not {want:#06x}", show(data))) }
}

pub fn c05(check: &Check) {
    assert_eq!(reference(b"123456789"), 0x31c3);
    let run = |label: &str, n: usize, gen: &(dyn Fn(usize) -> Vec<u8> + Sync)| check.enumerate(label, n, |i, probe| {
        let data = gen(i);
        probe.busy(&data);
        one(&data).map_err(|e| Violation { what: e, size: data.len(), replay: map([("case", "crc".into()), ("input", hex(&data).into())]) })?;
        Ok(data.len() as u64)
    });
    run("empty input", 1, &|_| vec![]);
    run("all inputs of 1 byte", 256, &|i| vec![i as u8]);
    run("all inputs of 2 bytes", 1 << 16, &|i| vec![(i >> 8) as u8, i as u8]);
    // Every one of the 65536 register values (each is reached by exactly one 2-byte input) followed by
    // every byte: all transitions of the checksum's state machine.
    run("all inputs of 3 bytes: every transition of the register", 1 << 24, &|i| vec![(i >> 16) as u8, (i >> 8) as u8, i as u8]);
    let reps = check.pick(64, 1024);
    run("long inputs of every byte value", 256 * reps, &|i| vec![(i % 256) as u8; i / 256 * 33]);
    if check.thorough() {
        // The register after 2 bytes determines everything, so 4-byte inputs re-check composition from states
        // reached in a different way.
        run("all inputs of 4 bytes with a fixed first byte", 1 << 24, &|i| vec![0xa5, (i >> 16) as u8, (i >> 8) as u8, i as u8]);
    }
    check.sample("\"123456789\" -> 0x31c3; every (register, byte) transition through its 3-byte input");
}
