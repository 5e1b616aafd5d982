//! Edge counters and comparison operands of the crate under test, delivered by LLVM's
//! sanitizer-coverage instrumentation (only `yamd` is instrumented, see /verif/tools/rustc_cov.sh).
//! Without the `cov` feature everything here is inert.

#[cfg(feature = "cov")]
mod imp {
    use std::cell::UnsafeCell;
    struct S<T>(UnsafeCell<T>);
    // workers are single threaded while coverage is collected
    unsafe impl<T> Sync for S<T> {}
    static REGIONS: S<[(usize, usize); 64]> = S(UnsafeCell::new([(0, 0); 64]));
    static NREG: S<usize> = S(UnsafeCell::new(0));
    const BITS: usize = 1 << 16;
    static SEEN_CMP: S<[u64; BITS / 64]> = S(UnsafeCell::new([0; BITS / 64]));
    static CMP: S<[u64; 4096]> = S(UnsafeCell::new([0; 4096]));
    static NCMP: S<usize> = S(UnsafeCell::new(0));

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
        if start == end {
            return;
        }
        unsafe {
            let n = &mut *NREG.0.get();
            let regs = &mut *REGIONS.0.get();
            for r in regs.iter().take(*n) {
                if r.0 == start as usize {
                    return;
                }
            }
            if *n < 64 {
                regs[*n] = (start as usize, end as usize);
                *n += 1;
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}

    #[inline]
    fn note(v: u64) {
        if v < 3 {
            return;
        }
        unsafe {
            let h = (v.wrapping_mul(0x9E3779B97F4A7C15) >> 48) as usize % BITS;
            let seen = &mut *SEEN_CMP.0.get();
            if seen[h / 64] >> (h % 64) & 1 == 0 {
                seen[h / 64] |= 1 << (h % 64);
                let n = &mut *NCMP.0.get();
                if *n < 4096 {
                    (*CMP.0.get())[*n] = v;
                    *n += 1;
                }
            }
        }
    }
    macro_rules! cmp {
        ($($n:ident $t:ty),*) => {$(#[no_mangle] pub extern "C" fn $n(a: $t, _b: $t) { note(a as u64); })*};
    }
    macro_rules! ign {
        ($($n:ident $t:ty),*) => {$(#[no_mangle] pub extern "C" fn $n(_a: $t, _b: $t) {})*};
    }
    cmp!(__sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16,
         __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64);
    ign!(__sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16,
         __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64);
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
        unsafe {
            let n = *cases as usize;
            for i in 0..n.min(256) {
                note(*cases.add(2 + i));
            }
        }
    }

    fn regions() -> &'static [(usize, usize)] {
        unsafe { &(&*REGIONS.0.get())[..*NREG.0.get()] }
    }
    pub fn counters() -> usize {
        regions().iter().map(|r| r.1 - r.0).sum()
    }
    pub fn reset() {
        for r in regions() {
            unsafe { std::ptr::write_bytes(r.0 as *mut u8, 0, r.1 - r.0) }
        }
    }
    fn bucket(c: u8) -> u8 {
        match c {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 4,
            4..=7 => 8,
            8..=15 => 16,
            16..=31 => 32,
            32..=127 => 64,
            _ => 128,
        }
    }
    /// Merges the counters of the last execution into `map`; true when something new was seen.
    pub fn merge(map: &mut Vec<u8>) -> bool {
        let total = counters();
        if map.len() < total {
            map.resize(total, 0);
        }
        let mut new = false;
        let mut base = 0;
        for r in regions() {
            let len = r.1 - r.0;
            let s = unsafe { std::slice::from_raw_parts(r.0 as *const u8, len) };
            for (ci, chunk) in s.chunks(8).enumerate() {
                let mut w = [0u8; 8];
                w[..chunk.len()].copy_from_slice(chunk);
                if u64::from_ne_bytes(w) == 0 {
                    continue;
                }
                for (k, &c) in chunk.iter().enumerate() {
                    if c != 0 {
                        let b = bucket(c);
                        let m = &mut map[base + ci * 8 + k];
                        if *m & b == 0 {
                            *m |= b;
                            new = true;
                        }
                    }
                }
            }
            base += len;
        }
        new
    }
    pub fn cmp_operands() -> Vec<u64> {
        unsafe { (&*CMP.0.get())[..*NCMP.0.get()].to_vec() }
    }
}

#[cfg(not(feature = "cov"))]
mod imp {
    pub fn reset() {}
    pub fn merge(_map: &mut Vec<u8>) -> bool {
        false
    }
    pub fn cmp_operands() -> Vec<u64> {
        Vec::new()
    }
}
pub use imp::*;
