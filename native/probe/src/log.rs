//! The log and the objects that write to it. Only plain system calls are used, so that it works while the library is
//! being unloaded, and nothing keeps the library loaded.

use std::ffi::{c_char, c_int, c_void, CStr};
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering};

#[repr(C)]
struct DlInfo {
    fname: *const c_char,
    fbase: *mut c_void,
    sname: *const c_char,
    saddr: *mut c_void,
}

extern "C" {
    fn dladdr(addr: *const c_void, info: *mut DlInfo) -> c_int;
    fn getenv(name: *const c_char) -> *const c_char;
    fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
}

/// The path of this library.
pub fn library() -> String {
    unsafe {
        let mut info = std::mem::zeroed::<DlInfo>();
        if dladdr(library as *const c_void, &mut info) == 0 || info.fname.is_null() {
            return String::new();
        }
        CStr::from_ptr(info.fname).to_string_lossy().to_string()
    }
}

/// Writes a line to the log.
pub fn log(line: &str) {
    unsafe {
        let path = getenv(b"PROBE_LOG\0".as_ptr() as *const c_char);
        if path.is_null() {
            return;
        }
        // O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC
        let fd = open(path, 0o1 | 0o100 | 0o2000 | 0o2000000, 0o644 as c_int);
        if fd < 0 {
            return;
        }
        let lib = library();
        let s = format!("{}\t{}\n", lib.rsplit('/').next().unwrap_or(""), line);
        write(fd, s.as_ptr() as *const c_void, s.len());
        close(fd);
    }
}

extern "C" fn fini() {
    log("fini");
}

#[used]
#[link_section = ".fini_array"]
static FINI: extern "C" fn() = fini;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, b| {
        (h ^ *b as u64).wrapping_mul(0x100000001b3)
    })
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

const LIVE: u64 = 0x5eed_1e55_600d_f00d;
const DEAD: u64 = 0xdead_dead_dead_dead;

/// A part of an object that notices if it is used after its end, or ended twice.
#[derive(Debug)]
pub struct Tracked {
    kind: &'static str,
    id: usize,
    magic: u64,
    heap: Box<u64>,
}

impl Tracked {
    pub fn new(kind: &'static str) -> Self {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        log(&format!("new\t{}\t{}", kind, id));
        Self {
            kind,
            id,
            magic: LIVE,
            heap: Box::new(LIVE ^ id as u64),
        }
    }

    /// Checks that the object is alive.
    pub fn check(&self, op: &str) {
        let magic = unsafe { std::ptr::read_volatile(&self.magic) };
        let heap = unsafe { std::ptr::read_volatile(&*self.heap) };
        if magic != LIVE || heap != LIVE ^ self.id as u64 {
            log(&format!("bad\t{}\t{}\t{}", self.kind, self.id, op));
        }
    }

    /// Notes a use of the object.
    pub fn used(&self, op: &str) {
        self.check(op);
        log(&format!("use\t{}\t{}\t{}", self.kind, self.id, op));
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        self.check("drop");
        log(&format!("drop\t{}\t{}", self.kind, self.id));
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}
