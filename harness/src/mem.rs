//! What a session holds in memory (C25): its own bytes and the live heap blocks its calls allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Track;

const N: usize = 1 << 14;
static LOCK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
/// (address, size, owner), open addressing without tombstones
static mut TABLE: [(usize, usize, u64); N] = [(0, 0, 0); N];

thread_local! {
    static OWNER: Cell<u64> = const { Cell::new(0) };
    /// while metered: bytes held now (beyond what was held at the start), most so far
    static METER: Cell<Option<(isize, isize)>> = const { Cell::new(None) };
}

fn meter(d: isize) {
    let _ = METER.try_with(|m| {
        if let Some((now, most)) = m.get() {
            m.set(Some((now + d, most.max(now + d))));
        }
    });
}

/// The most heap memory f held at once.  May be nested.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let outer = METER.with(|m| m.replace(Some((0, 0))));
    let x = f();
    METER.with(|m| {
        let (now, most) = m.get().unwrap_or((0, 0));
        m.set(outer.map(|(n, h)| (n + now, h.max(n + most))));
        (x, most as usize)
    })
}

fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40 & (N - 1)
}
fn locked<T>(f: impl FnOnce(*mut (usize, usize, u64)) -> T) -> T {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = f(std::ptr::addr_of_mut!(TABLE) as *mut _);
    LOCK.store(false, Ordering::Release);
    r
}
fn put(p: usize, n: usize, owner: u64) {
    if LIVE.load(Ordering::Relaxed) >= N / 2 {
        return;
    }
    locked(|t| unsafe {
        let mut i = slot(p);
        while (*t.add(i)).0 != 0 {
            i = (i + 1) & (N - 1);
        }
        *t.add(i) = (p, n, owner);
    });
    LIVE.fetch_add(1, Ordering::Relaxed);
}
/// Forgets a block; its owner if it was known.
fn take(p: usize) -> u64 {
    if LIVE.load(Ordering::Relaxed) == 0 {
        return 0;
    }
    locked(|t| unsafe {
        let mut i = slot(p);
        while (*t.add(i)).0 != 0 {
            if (*t.add(i)).0 == p {
                let owner = (*t.add(i)).2;
                LIVE.fetch_sub(1, Ordering::Relaxed);
                // close the gap
                let mut hole = i;
                let mut j = (i + 1) & (N - 1);
                while (*t.add(j)).0 != 0 {
                    let home = slot((*t.add(j)).0);
                    if (j.wrapping_sub(home) & (N - 1)) >= (j.wrapping_sub(hole) & (N - 1)) {
                        *t.add(hole) = *t.add(j);
                        hole = j;
                    }
                    j = (j + 1) & (N - 1);
                }
                *t.add(hole) = (0, 0, 0);
                return owner;
            }
            i = (i + 1) & (N - 1);
        }
        0
    })
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        meter(l.size() as isize);
        let o = OWNER.try_with(|o| o.get()).unwrap_or(0);
        if o != 0 && !p.is_null() {
            put(p as usize, l.size(), o);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        take(p as usize);
        meter(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let was = take(p as usize);
        // the old block may live until the new one is filled
        meter(n as isize);
        meter(-(l.size() as isize));
        let q = System.realloc(p, l, n);
        let now = OWNER.try_with(|o| o.get()).unwrap_or(0);
        let o = if was != 0 { was } else { now };
        if !q.is_null() && o != 0 {
            put(q as usize, n, o);
        }
        q
    }
}

/// Runs a call of a session; what it allocates is the session's.
pub fn owned<T>(owner: u64, f: impl FnOnce() -> T) -> T {
    struct Back(u64);
    impl Drop for Back {
        fn drop(&mut self) {
            let b = self.0;
            OWNER.with(|o| o.set(b));
        }
    }
    let _b = Back(OWNER.with(|o| o.replace(owner)));
    f()
}

/// The bytes of x followed by those of the owner's live blocks.
pub fn image<T>(x: &T, owner: u64) -> Vec<Vec<u8>> {
    let read = |p: usize, n: usize| -> Vec<u8> { (0..n).map(|i| unsafe { std::ptr::read_volatile((p + i) as *const u8) }).collect() };
    let mut all = vec![read(x as *const T as usize, std::mem::size_of::<T>())];
    let mut blocks = Vec::with_capacity(N);
    locked(|t| unsafe {
        for i in 0..N {
            let (p, n, o) = *t.add(i);
            if o == owner && p != 0 {
                blocks.push((p, n));
            }
        }
    });
    for (p, n) in blocks {
        all.push(read(p, n));
    }
    all
}

pub fn holds(image: &[Vec<u8>], secret: &[u8]) -> bool {
    image.iter().any(|b| b.windows(secret.len()).any(|w| w == secret))
}

/// A private key of this public key, if the image has one.
pub fn private_of(image: &[Vec<u8>], public: &[u8]) -> Option<[u8; 32]> {
    for b in image {
        for w in b.windows(32) {
            if w.iter().filter(|c| **c == 0).count() < 8 && crate::refnx::public(w) == public {
                let mut k = [0u8; 32];
                k.copy_from_slice(w);
                return Some(k);
            }
        }
    }
    None
}
