//! The clock of the operating system, as code that runs under the scheduler sees it: it shows
//! virtual time, and sleeping a thread is one step that lets virtual time pass.

use std::ffi::{c_int, c_long};
use std::time::Duration;

#[repr(C)]
pub struct Timespec { sec: i64, nsec: c_long }

extern "C" { fn syscall(n: c_long, ...) -> c_long; }
#[cfg(target_arch = "x86_64")]
const GETTIME: c_long = 228;
#[cfg(target_arch = "x86_64")]
const NANOSLEEP: c_long = 35;
#[cfg(target_arch = "x86_64")]
const CLOCK_NANOSLEEP: c_long = 230;
#[cfg(target_arch = "aarch64")]
const GETTIME: c_long = 113;
#[cfg(target_arch = "aarch64")]
const NANOSLEEP: c_long = 101;
#[cfg(target_arch = "aarch64")]
const CLOCK_NANOSLEEP: c_long = 115;

/// Whether a task is running.
fn inside() -> bool { super::active() && super::rt().cur.is_some() && !super::rt().killing }

/// When virtual time begins.
const EPOCH: u64 = 1_700_000_000;

#[no_mangle]
extern "C" fn clock_gettime(clock: c_int, to: *mut Timespec) -> c_int {
    if !inside() { return unsafe { syscall(GETTIME, clock as c_long, to) as c_int }; }
    // Two looks at the clock never see the same time.
    let r = super::rt();
    r.looks += 1;
    let t = Duration::from_secs(EPOCH) + r.now + Duration::from_nanos(r.looks);
    unsafe { to.write(Timespec { sec: t.as_secs() as i64, nsec: t.subsec_nanos() as c_long }); }
    0
}

fn asleep(d: &Timespec) {
    super::rt().now += Duration::new(d.sec as u64, d.nsec as u32);
    super::point();
}

#[no_mangle]
extern "C" fn nanosleep(d: *const Timespec, rest: *mut Timespec) -> c_int {
    if !inside() { return unsafe { syscall(NANOSLEEP, d, rest) as c_int }; }
    asleep(unsafe { &*d });
    0
}

#[no_mangle]
extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, d: *const Timespec, rest: *mut Timespec) -> c_int {
    if !inside() {
        if unsafe { syscall(CLOCK_NANOSLEEP, clock as c_long, flags as c_long, d, rest) } == 0 { return 0; }
        return std::io::Error::last_os_error().raw_os_error().unwrap_or(0);
    }
    let d = unsafe { &*d };
    let until = if flags == 0 { 0 } else { EPOCH as i64 + super::rt().now.as_secs() as i64 };
    asleep(&Timespec { sec: (d.sec - until).max(0), nsec: d.nsec });
    0
}
