//! A file system in memory, under the paths "/simfs/...". The C library's entry points are
//! replaced in this binary, so the standard library's file code runs for real on top of it. Every
//! call can be made to fail, to be interrupted, or to deliver less than asked for.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};

use crate::ctx;

pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const ENOENT: c_int = 2;
pub const EACCES: c_int = 13;
pub const EMFILE: c_int = 24;
pub const EBADF: c_int = 9;
pub const EISDIR: c_int = 21;
pub const ENOMEM: c_int = 12;
pub const ESTALE: c_int = 116;
pub const ETIMEDOUT: c_int = 110;
pub const EPERM: c_int = 1;
pub const ENXIO: c_int = 6;
pub const EAGAIN: c_int = 11;
pub const EINVAL: c_int = 22;
pub const ENFILE: c_int = 23;
pub const EFBIG: c_int = 27;
pub const ENOSPC: c_int = 28;
pub const EPIPE: c_int = 32;
pub const EOVERFLOW: c_int = 75;
pub const ECONNRESET: c_int = 104;

unsafe extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const FAKE_FD: c_int = 1 << 28;
const SYS_READ: c_long = 0;
const SYS_CLOSE: c_long = 3;
const SYS_FSTAT: c_long = 5;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_OPENAT: c_long = 257;
const SYS_GETRANDOM: c_long = 318;
const SYS_STATX: c_long = 332;

/// What the simulated disk does. Rates are 1/n, 0 is never.
#[derive(Clone, Default)]
pub struct Plan {
    pub open_error: Option<c_int>,
    pub open_eintr: u64,
    pub short_read: u64,
    pub one_byte_reads: bool,
    pub read_eintr: u64,
    /// Fail the n-th read call with this error.
    pub read_error_at: Option<(u64, c_int)>,
    /// What lies before this offset is delivered, reading on from there fails with this error.
    pub bad_from: Option<(usize, c_int)>,
    /// Report this size instead of the real one.
    pub stat_size: Option<u64>,
    pub stat_error: Option<c_int>,
    /// Report end of file after this many bytes: the file was cut off.
    pub truncate_at: Option<usize>,
}

struct Handle {
    data: Vec<u8>,
    pos: usize,
    reads: u64,
    eintr_run: u64,
}
#[derive(Default)]
pub struct Disk {
    files: BTreeMap<String, Vec<u8>>,
    plan: Plan,
    open: BTreeMap<c_int, Handle>,
    next: c_int,
    open_eintr_run: u64,
    /// Calls since the last plan was made.
    calls: u64,
    pub opened: u64,
    pub closed: u64,
    pub hard_error: bool,
}

thread_local! {
    static DISK: RefCell<Option<Disk>> = const { RefCell::new(None) };
}

pub fn mount(files: Vec<(String, Vec<u8>)>, plan: Plan) {
    let disk = Disk { files: files.into_iter().collect(), plan, ..Disk::default() };
    DISK.with(|d| *d.borrow_mut() = Some(disk));
}
pub fn set_plan(plan: Plan) {
    with(|d| {
        d.plan = plan;
        d.calls = 0;
    });
}
pub fn with<R>(f: impl FnOnce(&mut Disk) -> R) -> Option<R> {
    DISK.with(|d| d.try_borrow_mut().ok().and_then(|mut d| d.as_mut().map(f)))
}
pub fn take() -> Option<Disk> {
    DISK.with(|d| d.borrow_mut().take())
}
pub fn put(disk: Option<Disk>) {
    DISK.with(|d| *d.borrow_mut() = disk);
}
pub fn unmount() {
    DISK.with(|d| *d.borrow_mut() = None);
}

fn set_errno(e: c_int) {
    unsafe { *__errno_location() = e };
}

/// Calls to the disk are not part of a step budget: how many are needed depends on the buffer of
/// the one who reads. But whoever keeps calling, many times for each byte there is, doesn't stop.
/// The C library can't be unwound, so that is the end of the process.
fn count_call() {
    ctx::free_step();
    let endless = with(|d| {
        d.calls += 1;
        d.calls > 1_000_000 + 100 * d.files.values().map(|f| f.len() as u64).sum::<u64>()
    });
    if endless == Some(true) {
        eprintln!("endless file calls");
        std::process::abort();
    }
}

fn sim_open(path: &str) -> c_int {
    count_call();
    crate::seam::yield_at("open");
    let r: Result<c_int, c_int> = with(|d| {
        if d.plan.open_eintr > 0 && d.open_eintr_run < 5 && ctx::chance(1, d.plan.open_eintr) {
            d.open_eintr_run += 1;
            ctx::fault("EINTR on open");
            return Err(EINTR);
        }
        d.open_eintr_run = 0;
        if let Some(e) = d.plan.open_error {
            ctx::fault("error on open");
            d.hard_error = true;
            return Err(e);
        }
        let Some(data) = d.files.get(path) else { return Err(ENOENT) };
        let mut data = data.clone();
        if let Some(n) = d.plan.truncate_at {
            if n < data.len() {
                ctx::fault("file cut off");
                data.truncate(n);
            }
        }
        let fd = FAKE_FD + d.next;
        d.next += 1;
        d.opened += 1;
        d.open.insert(fd, Handle { data, pos: 0, reads: 0, eintr_run: 0 });
        Ok(fd)
    })
    .unwrap_or(Err(ENOENT));
    match r {
        Ok(fd) => fd,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

fn sim_read(fd: c_int, buf: *mut u8, count: usize) -> isize {
    count_call();
    crate::seam::yield_at("read");
    let r: Result<usize, c_int> = with(|d| {
        let plan = d.plan.clone();
        let Some(h) = d.open.get_mut(&fd) else { return Err(EBADF) };
        if plan.read_eintr > 0 && h.eintr_run < 5 && ctx::chance(1, plan.read_eintr) {
            h.eintr_run += 1;
            ctx::fault("EINTR on read");
            return Err(EINTR);
        }
        h.eintr_run = 0;
        let nth = h.reads;
        h.reads += 1;
        if let Some((at, e)) = plan.read_error_at {
            if nth == at {
                ctx::fault("error on read");
                d.hard_error = true;
                return Err(e);
            }
        }
        let mut left = h.data.len() - h.pos;
        if let Some((from, e)) = plan.bad_from {
            left = left.min(from.saturating_sub(h.pos));
            if left == 0 {
                ctx::fault("error on read");
                if h.pos == h.data.len() {
                    ctx::note("error after all data arrived");
                }
                d.hard_error = true;
                return Err(e);
            }
        }
        let mut n = left.min(count);
        if left > 2500 && n > 1 && (plan.one_byte_reads || plan.short_read > 0) {
            // Most of a long file arrives in larger pieces.
            n = 1 + ctx::below(n.min(2500));
            ctx::fault("short read");
        } else if n > 1 && plan.one_byte_reads {
            ctx::fault("one byte read");
            n = 1;
        } else if n > 1 && plan.short_read > 0 && ctx::chance(1, plan.short_read) {
            n = 1 + ctx::below(n - 1);
            ctx::fault("short read");
        }
        unsafe { std::ptr::copy_nonoverlapping(h.data.as_ptr().add(h.pos), buf, n) };
        h.pos += n;
        ctx::event(n as u64);
        Ok(n)
    })
    .unwrap_or(Err(EBADF));
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

fn sim_size(fd: c_int) -> Result<u64, c_int> {
    with(|d| {
        if let Some(e) = d.plan.stat_error {
            ctx::fault("error on stat");
            return Err(e);
        }
        let Some(h) = d.open.get(&fd) else { return Err(EBADF) };
        match d.plan.stat_size {
            Some(s) => {
                ctx::fault("wrong size from stat");
                Ok(s)
            }
            None => Ok(h.data.len() as u64),
        }
    })
    .unwrap_or(Err(EBADF))
}

unsafe fn is_sim_path(path: *const c_char) -> Option<String> {
    let s = unsafe { CStr::from_ptr(path) }.to_bytes();
    if s.starts_with(b"/simfs/") && ctx::installed() { Some(String::from_utf8_lossy(s).into_owned()) } else { None }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match unsafe { is_sim_path(path) } {
        Some(p) => sim_open(&p),
        None => unsafe { syscall(SYS_OPENAT, -100 as c_long, path, flags as c_long, mode as c_long) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { open64(path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: usize) -> isize {
    if fd >= FAKE_FD { sim_read(fd, buf.cast(), count) } else { unsafe { syscall(SYS_READ, fd as c_long, buf, count) as isize } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, count: usize, offset: i64) -> isize {
    if fd >= FAKE_FD {
        let at = with(|d| d.open.get_mut(&fd).map(|h| std::mem::replace(&mut h.pos, (offset.max(0) as usize).min(h.data.len())))).flatten();
        let r = sim_read(fd, buf.cast(), count);
        with(|d| {
            if let (Some(h), Some(at)) = (d.open.get_mut(&fd), at) {
                h.pos = at;
            }
        });
        r
    } else {
        unsafe { syscall(SYS_PREAD, fd as c_long, buf, count, offset) as isize }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FAKE_FD {
        with(|d| {
            if d.open.remove(&fd).is_some() {
                d.closed += 1;
            }
        });
        0
    } else {
        unsafe { syscall(SYS_CLOSE, fd as c_long) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, offset: i64, whence: c_int) -> i64 {
    if fd >= FAKE_FD {
        with(|d| {
            let h = d.open.get_mut(&fd)?;
            let base = match whence {
                0 => 0,
                1 => h.pos as i64,
                _ => h.data.len() as i64,
            };
            h.pos = (base + offset).clamp(0, h.data.len() as i64) as usize;
            Some(h.pos as i64)
        })
        .flatten()
        .unwrap_or(-1)
    } else {
        unsafe { syscall(SYS_LSEEK, fd as c_long, offset, whence as c_long) }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    if fd >= FAKE_FD {
        match sim_size(fd) {
            Ok(size) => unsafe {
                std::ptr::write_bytes(buf, 0, 144);
                // st_mode at 24, st_size at 48 (x86-64)
                (buf.add(24) as *mut u32).write_unaligned(0o100644);
                (buf.add(48) as *mut i64).write_unaligned(size as i64);
                0
            },
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        unsafe { syscall(SYS_FSTAT, fd as c_long, buf) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    if dir >= FAKE_FD && !buf.is_null() {
        match sim_size(dir) {
            Ok(size) => unsafe {
                std::ptr::write_bytes(buf, 0, 256);
                (buf as *mut u32).write_unaligned(0x7ff); // stx_mask: basic stats
                (buf.add(28) as *mut u16).write_unaligned(0o100644); // stx_mode
                (buf.add(40) as *mut u64).write_unaligned(size); // stx_size
                0
            },
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else if let Some(p) = if path.is_null() { None } else { unsafe { is_sim_path(path) } } {
        let size = with(|d| match d.plan.stat_error {
            Some(e) => {
                ctx::fault("error on stat");
                Err(e)
            }
            None => d.files.get(&p).map(|f| d.plan.stat_size.unwrap_or(f.len() as u64)).ok_or(ENOENT),
        })
        .unwrap_or(Err(ENOENT));
        match size {
            Ok(size) => unsafe {
                std::ptr::write_bytes(buf, 0, 256);
                (buf as *mut u32).write_unaligned(0x7ff);
                (buf.add(28) as *mut u16).write_unaligned(0o100644);
                (buf.add(40) as *mut u64).write_unaligned(size);
                0
            },
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        unsafe { syscall(SYS_STATX, dir as c_long, path, flags as c_long, mask as c_long, buf) as c_int }
    }
}
/// Seeds of randomised hash maps, on threads that run a simulation.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if ctx::installed() {
        let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
        for chunk in out.chunks_mut(8) {
            let b = ctx::next_hash_seed().to_le_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&b[..n]);
        }
        len as isize
    } else {
        unsafe { syscall(SYS_GETRANDOM, buf, len, flags as c_long) as isize }
    }
}

const SYS_CLOCK_GETTIME: c_long = 228;
const SYS_GETPID: c_long = 39;
const SYS_SCHED_GETAFFINITY: c_long = 204;

/// Clocks, on threads that run a simulation.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: c_int, out: *mut i64) -> c_int {
    if ctx::installed() {
        let now = ctx::read_clock(clock == 0);
        unsafe {
            *out = (now / 1_000_000_000) as i64;
            *out.add(1) = (now % 1_000_000_000) as i64;
        }
        0
    } else {
        unsafe { syscall(SYS_CLOCK_GETTIME, clock as c_long, out) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> c_int {
    if ctx::installed() { 2 + (ctx::process_number() % 30_000) as c_int } else { unsafe { syscall(SYS_GETPID) as c_int } }
}
/// How many processors there are.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, size: usize, mask: *mut u8) -> c_int {
    if ctx::installed() && size > 0 {
        unsafe {
            std::ptr::write_bytes(mask, 0, size);
            *mask = (1u16 << (1 + ctx::process_number() % 8)).wrapping_sub(1) as u8;
        }
        0
    } else {
        match unsafe { syscall(SYS_SCHED_GETAFFINITY, pid as c_long, size, mask) } {
            n if n >= 0 => {
                unsafe { std::ptr::write_bytes(mask.add(n as usize), 0, size - n as usize) };
                0
            }
            _ => -1,
        }
    }
}
