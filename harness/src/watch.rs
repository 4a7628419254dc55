//! In-process observers of side effects: the C library's entry points for output, files,
//! environment, clock, processes and network are interposed (this executable defines
//! them and forwards to the real ones), and the allocator counts. Both only look while
//! a thread is inside `observe`/`measure`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void};

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<Option<&'static str>> = const { Cell::new(None) };
    static COUNT: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}

fn inside(name: &'static str) -> bool {
    let on = INSIDE.try_with(|i| i.get()).unwrap_or(false);
    if on {
        let _ = SEEN.try_with(|s| {
            if s.get().is_none() {
                s.set(Some(name))
            }
        });
    }
    on
}

extern "C" {
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;

macro_rules! interpose {
    ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty ;)*) => { $(
        /// # Safety
        /// Same contract as the C function it forwards to.
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            inside(stringify!($name));
            let real = dlsym(RTLD_NEXT, concat!(stringify!($name), "\0").as_ptr() as *const c_char);
            let real: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(real);
            real($($a),*)
        }
    )* };
}

interpose! {
    read(fd: c_int, p: *mut c_void, n: usize) -> isize;
    open64(p: *const c_char, f: c_int, m: c_uint) -> c_int;
    openat(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int;
    openat64(d: c_int, p: *const c_char, f: c_int, m: c_uint) -> c_int;
    fopen(p: *const c_char, m: *const c_char) -> *mut c_void;
    fopen64(p: *const c_char, m: *const c_char) -> *mut c_void;
    stat64(p: *const c_char, s: *mut c_void) -> c_int;
    lstat64(p: *const c_char, s: *mut c_void) -> c_int;
    unlink(p: *const c_char) -> c_int;
    rename(a: *const c_char, b: *const c_char) -> c_int;
    mkdir(a: *const c_char, m: c_uint) -> c_int;
    getcwd(a: *mut c_char, n: usize) -> *mut c_char;
    getenv(a: *const c_char) -> *mut c_char;
    setenv(a: *const c_char, b: *const c_char, o: c_int) -> c_int;
    unsetenv(a: *const c_char) -> c_int;
    socket(a: c_int, b: c_int, c: c_int) -> c_int;
    getaddrinfo(a: *const c_char, b: *const c_char, c: *const c_void, d: *mut c_void) -> c_int;
    clock_gettime(c: c_int, t: *mut c_void) -> c_int;
    gettimeofday(t: *mut c_void, z: *mut c_void) -> c_int;
    time(t: *mut c_long) -> c_long;
    localtime_r(t: *const c_long, o: *mut c_void) -> *mut c_void;
    nanosleep(a: *const c_void, b: *mut c_void) -> c_int;
    clock_nanosleep(a: c_int, f: c_int, b: *const c_void, c: *mut c_void) -> c_int;
    fork() -> c_int;
    execvp(a: *const c_char, b: *const *const c_char) -> c_int;
    posix_spawn(a: *mut c_int, b: *const c_char, c: *const c_void, d: *const c_void, e: *const *mut c_char, f: *const *mut c_char) -> c_int;
    posix_spawnp(a: *mut c_int, b: *const c_char, c: *const c_void, d: *const c_void, e: *const *mut c_char, f: *const *mut c_char) -> c_int;
}

/// # Safety
/// As write(2). Output of the code under test is recorded and dropped, so that it
/// cannot mix with the verdict.
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    if inside("write") && (fd == 1 || fd == 2) {
        return n as isize;
    }
    let real: unsafe extern "C" fn(c_int, *const c_void, usize) -> isize = std::mem::transmute(dlsym(RTLD_NEXT, c"write".as_ptr()));
    real(fd, p, n)
}

#[repr(C)]
struct IoVec {
    p: *const c_void,
    n: usize,
}

/// # Safety
/// As writev(2).
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    if inside("writev") && (fd == 1 || fd == 2) {
        return std::slice::from_raw_parts(v as *const IoVec, n.max(0) as usize).iter().map(|x| x.n as isize).sum();
    }
    let real: unsafe extern "C" fn(c_int, *const c_void, c_int) -> isize = std::mem::transmute(dlsym(RTLD_NEXT, c"writev".as_ptr()));
    real(fd, v, n)
}

/// Run `f` and name the first side effect seen, if any.
pub fn observe<T>(f: impl FnOnce() -> T) -> (T, Option<&'static str>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            INSIDE.with(|i| i.set(false));
        }
    }
    SEEN.with(|s| s.set(None));
    INSIDE.with(|i| i.set(true));
    let off = Off;
    let r = f();
    // what was printed without a newline is still in the standard library's buffer
    let _ = std::io::Write::flush(&mut std::io::stdout());
    drop(off);
    (r, SEEN.with(|s| s.take()))
}

pub struct Counter;

fn grow(n: i64) {
    if COUNT.try_with(|c| c.get()).unwrap_or(false) {
        LIVE.with(|l| {
            let v = l.get() + n;
            l.set(v);
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        });
        if n > 0 {
            BLOCKS.with(|b| b.set(b.get() + 1));
        }
    }
}

// SAFETY: forwards to the system allocator; only counts.
unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grow(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub struct Memory {
    /// bytes still held when `f` returned, less those held before
    pub kept: i64,
    pub peak: i64,
    pub blocks: u64,
}

/// Count what this thread allocates during `f`.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Memory) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    BLOCKS.with(|l| l.set(0));
    COUNT.with(|c| c.set(true));
    let r = f();
    COUNT.with(|c| c.set(false));
    (r, Memory { kept: LIVE.with(|l| l.get()), peak: PEAK.with(|l| l.get()), blocks: BLOCKS.with(|b| b.get()) })
}
