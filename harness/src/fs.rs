//! Helpers over the recording merlin transcript.
use merlin::recorder::{self, Ev};
use merlin::Transcript;

pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Ev>) {
    recorder::start();
    let r = f();
    (r, recorder::take())
}
/// like `record`, but a panic inside yields None for the value (the log is still returned)
pub fn record_quiet<T>(f: impl FnOnce() -> T) -> (Option<T>, Vec<Ev>) {
    recorder::start();
    let r = crate::quiet(f).ok();
    (r, recorder::take())
}
fn leak(b: &[u8]) -> &'static [u8] {
    Box::leak(b.to_vec().into_boxed_slice())
}
/// a live transcript in the state after the given events (the first one being the domain separator)
pub fn rebuild(evs: &[Ev]) -> Transcript {
    let mut t = match &evs[0] {
        Ev::Absorb(l, m) if *l == b"dom-sep" => Transcript::new(leak(m)),
        _ => panic!("log does not start with a domain separator"),
    };
    for e in &evs[1..] {
        match e {
            Ev::Absorb(l, m) => t.append_message(l, m),
            Ev::Challenge(l, m) => {
                let mut b = vec![0u8; m.len()];
                t.challenge_bytes(l, &mut b);
            }
        }
    }
    t
}
pub fn challenges(evs: &[Ev]) -> Vec<(usize, &'static [u8], Vec<u8>)> {
    evs.iter()
        .enumerate()
        .filter_map(|(i, e)| match e {
            Ev::Challenge(l, m) => Some((i, *l, m.clone())),
            _ => None,
        })
        .collect()
}
