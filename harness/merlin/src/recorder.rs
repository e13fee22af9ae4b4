//! Verification-only recorder: a thread-local log of every absorbed message and challenge.
use std::cell::RefCell;
use std::vec::Vec;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Absorb(&'static [u8], Vec<u8>),
    Challenge(&'static [u8], Vec<u8>),
}

std::thread_local! {
    static LOG: RefCell<Option<Vec<Ev>>> = RefCell::new(None);
}

/// Starts recording on this thread.
pub fn start() {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
}
/// Stops recording and returns the log.
pub fn take() -> Vec<Ev> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}
pub(crate) fn absorb(label: &'static [u8], m: &[u8]) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(Ev::Absorb(label, m.to_vec()));
        }
    });
}
pub(crate) fn challenge(label: &'static [u8], m: &[u8]) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(Ev::Challenge(label, m.to_vec()));
        }
    });
}

std::thread_local! {
    static FORCED: RefCell<Option<(u64, u64)>> = RefCell::new(None);
}
/// From now on this thread's challenges depend only on `seed` and on how many came before.
pub fn force(seed: Option<u64>) {
    FORCED.with(|f| *f.borrow_mut() = seed.map(|s| (s, 0)));
}
pub(crate) fn forced(dest: &mut [u8]) {
    FORCED.with(|f| {
        if let Some((s, n)) = f.borrow_mut().as_mut() {
            let mut x = s.wrapping_add(n.wrapping_mul(0x9e37_79b9_7f4a_7c15));
            *n += 1;
            for c in dest.chunks_mut(8) {
                x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                z ^= z >> 31;
                let b = z.to_le_bytes();
                c.copy_from_slice(&b[..c.len()]);
            }
        }
    });
}

std::thread_local! {
    static FLIP: RefCell<Option<(usize, Option<usize>)>> = RefCell::new(None);
    static SIZES: RefCell<Vec<usize>> = RefCell::new(Vec::new());
}
/// From now on the given challenge of this thread is handed out with one bit, or all of them, changed
/// (the transcript itself is left alone). Starts counting anew.
pub fn flip(x: Option<(usize, Option<usize>)>) {
    FLIP.with(|f| *f.borrow_mut() = x);
    SIZES.with(|n| n.borrow_mut().clear());
}
/// how many bytes each challenge since the last `flip` had
pub fn sizes() -> Vec<usize> {
    SIZES.with(|n| n.borrow().clone())
}
pub(crate) fn flipped(dest: &mut [u8]) {
    let k = SIZES.with(|n| {
        let mut n = n.borrow_mut();
        if n.len() < 1 << 20 {
            n.push(dest.len());
        }
        n.len() - 1
    });
    FLIP.with(|f| match *f.borrow() {
        Some((i, None)) if i == k => dest.iter_mut().enumerate().for_each(|(j, x)| *x ^= 0x35u8.wrapping_mul((2 * j + 1) as u8)),
        Some((i, Some(b))) if i == k && b / 8 < dest.len() => dest[b / 8] ^= 1 << (b % 8),
        _ => {}
    });
}
