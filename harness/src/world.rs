//! The world a call might look at: clock, environment variables, processors. While `with` runs, this thread
//! sees another one — time stands still or flies, every variable is set — and results must not notice.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static HOW: Cell<u32> = const { Cell::new(0) };
    static TICKS: Cell<i64> = const { Cell::new(0) };
}
/// looks at the clock, at the environment
pub static LOOKS: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

pub const WORLDS: u32 = 4;

pub fn name(how: u32) -> &'static str {
    ["as it is", "time flies, variables are 1", "time stands still, variables are 0", "time runs backwards, variables are empty", "a second passes at every look"][how as usize]
}

pub fn with<T>(how: u32, f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            HOW.with(|h| h.set(0));
        }
    }
    TICKS.with(|t| t.set(0));
    HOW.with(|h| h.set(how));
    let _b = Back;
    f()
}

#[cfg(all(feature = "count", not(feature = "tracepc")))]
mod hooks {
    use super::*;
    use libc::{c_char, c_int, timespec, timeval};

    fn shifted(s: i64) -> i64 {
        let how = HOW.with(|h| h.get());
        if how == 0 {
            return s;
        }
        LOOKS[0].fetch_add(1, Relaxed);
        let n = TICKS.with(|t| {
            t.set(t.get() + 1);
            t.get()
        });
        match how {
            1 => s + 36_000 * n,
            2 => 1_000_000,
            3 => 2_000_000_000 - n,
            _ => 1_000_000 + n,
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut timespec) -> c_int {
        let r = libc::syscall(libc::SYS_clock_gettime, id, t) as c_int;
        if r == 0 && HOW.with(|h| h.get()) != 0 {
            (*t).tv_sec = shifted((*t).tv_sec);
            if HOW.with(|h| h.get()) == 2 {
                (*t).tv_nsec = 0;
            }
        }
        r
    }

    #[no_mangle]
    pub unsafe extern "C" fn gettimeofday(t: *mut timeval, z: *mut libc::c_void) -> c_int {
        let r = libc::syscall(libc::SYS_gettimeofday, t, z) as c_int;
        if r == 0 && !t.is_null() {
            (*t).tv_sec = shifted((*t).tv_sec);
        }
        r
    }

    extern "C" {
        static environ: *const *const c_char;
    }

    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        let n = std::ffi::CStr::from_ptr(name).to_bytes();
        let how = HOW.with(|h| h.get());
        if how != 0 && !n.starts_with(b"RUST_") && !n.starts_with(b"MALLOC_") {
            LOOKS[1].fetch_add(1, Relaxed);
            return match how {
                1 => c"1",
                2 => c"0",
                3 => c"",
                _ => c"true",
            }
            .as_ptr() as *mut c_char;
        }
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let v = std::ffi::CStr::from_ptr(*e).to_bytes();
            if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' {
                return (*e).add(n.len() + 1) as *mut c_char;
            }
            e = e.add(1);
        }
        std::ptr::null_mut()
    }
}

/// The hooks work: this process sees the other world through the standard library.
pub fn works() -> bool {
    let a = with(2, || (std::time::Instant::now(), std::time::Instant::now(), std::env::var("YMON_NO_SUCH").ok()));
    let b = with(1, || std::time::SystemTime::now().elapsed().map_or(u64::MAX, |d| d.as_secs()));
    for l in &LOOKS {
        l.store(0, Relaxed);
    }
    a.0 == a.1 && a.2.as_deref() == Some("0") && b >= 36_000 && std::env::var("YMON_NO_SUCH").is_err()
}
