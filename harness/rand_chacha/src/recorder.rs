//! Verification-only recorder: which seeds numbers are drawn from, in order, on this thread.
use std::cell::RefCell;
use std::vec::Vec;

std::thread_local! {
    static LOG: RefCell<Option<Vec<[u8; 32]>>> = RefCell::new(None);
}

pub fn start() {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
}
/// The seeds drawn from since `start`, runs of one seed merged.
pub fn take() -> Vec<[u8; 32]> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}
pub(crate) fn draw(seed: &[u8; 32]) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            if v.last() != Some(seed) {
                v.push(*seed);
            }
        }
    });
}

std::thread_local! {
    static FORCED: RefCell<Option<(u64, u64)>> = RefCell::new(None);
}
/// From now on the n-th generator this thread seeds depends only on `seed` and n.
pub fn force(seed: Option<u64>) {
    FORCED.with(|f| *f.borrow_mut() = seed.map(|s| (s, 0)));
}
pub(crate) fn forced(dest: &mut [u8; 32]) {
    FORCED.with(|f| {
        if let Some((s, n)) = f.borrow_mut().as_mut() {
            *dest = [0x5a; 32];
            dest[..8].copy_from_slice(&s.to_le_bytes());
            dest[8..16].copy_from_slice(&n.to_le_bytes());
            *n += 1;
        }
    });
}

std::thread_local! {
    static FLIP: RefCell<Option<(usize, Option<usize>)>> = RefCell::new(None);
    static SIZES: RefCell<Vec<([u8; 32], usize)>> = RefCell::new(Vec::new());
}
/// From now on the given draw of this thread is handed out with one bit, or all of them, changed.
/// Starts counting anew.
pub fn flip(x: Option<(usize, Option<usize>)>) {
    FLIP.with(|f| *f.borrow_mut() = x);
    SIZES.with(|n| n.borrow_mut().clear());
}
/// the seed and the bytes of each draw since the last `flip`
pub fn sizes() -> Vec<([u8; 32], usize)> {
    SIZES.with(|n| n.borrow().clone())
}
pub(crate) fn flipped(seed: &[u8; 32], dest: &mut [u8]) {
    let k = SIZES.with(|n| {
        let mut n = n.borrow_mut();
        if n.len() < 1 << 20 {
            n.push((*seed, dest.len()));
        }
        n.len() - 1
    });
    FLIP.with(|f| match *f.borrow() {
        Some((i, None)) if i == k => dest.iter_mut().enumerate().for_each(|(j, x)| *x ^= 0x35u8.wrapping_mul((2 * j + 1) as u8)),
        Some((i, Some(b))) if i == k && b / 8 < dest.len() => dest[b / 8] ^= 1 << (b % 8),
        _ => {}
    });
}
