//! The case being executed, in a memory-mapped file, so that the supervisor can recover it after a
//! crash or a hang of the worker.
use crate::props::Case;
use crate::treeio;

pub struct Slot {
    p: *mut u8,
    cap: usize,
    n: u64,
}
unsafe impl Send for Slot {}

pub const CAP: usize = 1 << 22;

impl Slot {
    pub fn open(path: &str) -> Slot {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
        f.set_len(CAP as u64).expect("slot size");
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), CAP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED, "mmap of the slot failed");
        Slot { p: p as *mut u8, cap: CAP - 16, n: 0 }
    }
    /// layout: u64 executions, u64 length, encoded case
    pub fn put(&mut self, prop: &str, c: &Case) {
        self.n += 1;
        unsafe {
            let mut at = self.p.add(16);
            let mut left = self.cap;
            let mut w = |b: &[u8]| {
                let k = b.len().min(left);
                std::ptr::copy_nonoverlapping(b.as_ptr(), at, k);
                at = at.add(k);
                left -= k;
            };
            let tree = c.tree.as_ref().map(treeio::enc);
            let mut head = [0u8; 64];
            let h = head_into(&mut head, prop, c, tree.is_some());
            w(&head[..h]);
            w(c.text.as_bytes());
            if let Some(t) = &tree {
                w(t.as_bytes())
            }
            let len = (self.cap - left) as u64;
            (self.p as *mut u64).write_unaligned(self.n);
            (self.p.add(8) as *mut u64).write_unaligned(len);
        }
    }
}

fn head_into(buf: &mut [u8; 64], prop: &str, c: &Case, tree: bool) -> usize {
    use std::io::Write;
    let mut cur = std::io::Cursor::new(&mut buf[..]);
    let _ = write!(cur, "ymon1 {} {} {} {}\n", prop, c.aux, c.text.len(), if tree { 'T' } else { 'N' });
    cur.position() as usize
}

pub fn encode(prop: &str, c: &Case) -> Vec<u8> {
    let mut head = [0u8; 64];
    let h = head_into(&mut head, prop, c, c.tree.is_some());
    let mut v = head[..h].to_vec();
    v.extend_from_slice(c.text.as_bytes());
    if let Some(t) = &c.tree {
        v.extend_from_slice(treeio::enc(t).as_bytes())
    }
    v
}

pub fn decode(b: &[u8]) -> Option<(String, Case)> {
    let nl = b.iter().position(|&c| c == b'\n')?;
    let head = std::str::from_utf8(&b[..nl]).ok()?;
    let f: Vec<&str> = head.split(' ').collect();
    if f.len() != 5 || f[0] != "ymon1" {
        return None;
    }
    let n: usize = f[3].parse().ok()?;
    let rest = &b[nl + 1..];
    let text = String::from_utf8(rest.get(..n)?.to_vec()).ok()?;
    let tree = if f[4] == "T" { Some(treeio::dec(std::str::from_utf8(&rest[n..]).ok()?)) } else { None };
    Some((f[1].to_string(), Case { text, tree, aux: f[2].parse().ok()? }))
}
