//! Counts the machine instructions a piece of code executes, by single-stepping the calling
//! thread (x86-64 trap flag; one SIGTRAP per instruction).  Same process, no privileges needed.
use std::cell::Cell;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static STATE: Cell<Option<Spot>> = const { Cell::new(None) };
    static LAST: Cell<Option<u64>> = const { Cell::new(None) };
}
/// Where a count can be asked for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spot {
    /// the client receives the server's authenticator
    Ta,
    /// the server receives the client's authenticator
    Tb,
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod imp {
    use super::COUNT;
    use std::sync::Once;
    extern "C" fn on_trap(_: libc::c_int) {
        COUNT.with(|c| c.set(c.get() + 1));
    }
    static INIT: Once = Once::new();
    pub fn install() {
        INIT.call_once(|| unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            let f: extern "C" fn(libc::c_int) = on_trap;
            sa.sa_sigaction = f as libc::sighandler_t;
            libc::sigemptyset(&mut sa.sa_mask);
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        });
    }
    // `call` keeps the red zone of the caller out of the way: the functions are never inlined
    #[inline(never)]
    pub fn on() {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(never)]
    pub fn off() {
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod imp {
    pub fn install() {}
    pub fn on() {}
    pub fn off() {}
}

/// Runs `f` and returns what it returns and how many instructions it took.
pub fn count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    imp::install();
    COUNT.with(|c| c.set(0));
    imp::on();
    let r = f();
    imp::off();
    (r, COUNT.with(Cell::get))
}

/// Does single-stepping work here?  (a loop twice as long must take about twice as many steps)
pub fn works() -> bool {
    static ONCE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ONCE.get_or_init(works_now)
}
fn works_now() -> bool {
    let n = |k: u64| count(|| (0..k).fold(1u64, |a, b| std::hint::black_box(a ^ b))).1;
    let (a, b) = (n(1000), n(2000));
    a > 1000 && b > a + 1000
}

/// Asks for the next call of this thread at `spot` to be counted.
pub fn arm(spot: Spot) {
    LAST.with(|l| l.set(None));
    STATE.with(|s| s.set(Some(spot)));
}
/// The count of the last armed call, if one was reached.
pub fn taken() -> Option<u64> {
    STATE.with(|s| s.set(None));
    LAST.with(Cell::take)
}
/// Runs `f`, counting its instructions if this thread asked for it.
pub fn measured<T>(spot: Spot, f: impl FnOnce() -> T) -> T {
    if STATE.with(Cell::get) != Some(spot) {
        return f();
    }
    let (r, n) = count(f);
    STATE.with(|s| s.set(None));
    LAST.with(|l| l.set(Some(n)));
    r
}

/// Wrong values of the length of `p` (and, with `lens`, of other lengths), by where they differ.
pub fn wrong_ones(p: &[u8], seed: u64, n: usize) -> Vec<(String, Vec<u8>)> {
    use crate::util::{fill, near_miss};
    let l = p.len();
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let noise: Vec<u8> = fill(l, seed).iter().zip(p).map(|(a, b)| if a == b { !a } else { *a }).collect();
    v.push(("wrong everywhere".into(), noise.clone()));
    v.push(("complement".into(), p.iter().map(|x| !x).collect()));
    let r = fill(4 * n, seed ^ 0x5157);
    let mut at: Vec<usize> = vec![0, 1, (l / 2).saturating_sub(1), l / 2, l.saturating_sub(2), l - 1];
    for i in [7, 8, 15, 16, 31, 32] {
        if i < l {
            at.push(i);
        }
    }
    for k in 0..n {
        at.push(usize::from(u16::from_le_bytes([r[4 * k], r[4 * k + 1]])) % l);
    }
    for (j, i) in at.into_iter().enumerate() {
        let mut q = p.to_vec();
        q[i] ^= 1 << (j % 8);
        v.push((format!("only byte {i} wrong"), q));
        if i > 0 {
            v.push((format!("first {i} bytes right"), [&p[..i], &noise[i..]].concat()));
        }
        v.push((format!("first {i} bytes wrong"), [&noise[..i], &p[i..]].concat()));
    }
    // content made of the right bytes, elsewhere than in their places
    for (j, i) in [0, l - 1, usize::from(r[0]) % l, usize::from(r[1]) % l].into_iter().enumerate() {
        let k = (j * l / 3 + usize::from(r[2])) % l;
        v.push((format!("filled with byte {i} of the right value"), vec![p[i]; l]));
        v.push((format!("tail filled with byte {i}"), [&p[..k], &vec![p[i]; l - k][..]].concat()));
        v.push((format!("noise, then filled with byte {i}"), [&noise[..k], &vec![p[i]; l - k][..]].concat()));
        v.push((format!("filled with byte {i}, then noise"), [&vec![p[i]; l - k][..], &noise[..k]].concat()));
        v.push((format!("rotated by {i}"), [&p[i..], &p[..i]].concat()));
    }
    v.push(("reversed".into(), p.iter().rev().copied().collect()));
    v.push(("zeros".into(), vec![0; l]));
    v.push(("ones".into(), vec![0xff; l]));
    for k in 0..n as u64 {
        v.push(("near miss".into(), near_miss(p, seed ^ k)));
    }
    v.retain(|(_, q)| q.len() == l && q != p);
    // a selection, always with the extremes
    let keep = 3 + n;
    let pick = fill(2 * keep, seed ^ 0x9999);
    let mut out = vec![v[0].clone()];
    for w in ["only byte 0 wrong".to_string(), format!("only byte {} wrong", l - 1)] {
        out.extend(v.iter().find(|x| x.0 == w).cloned());
    }
    for k in pick.chunks(2) {
        out.push(v[usize::from(u16::from_le_bytes([k[0], k[1]])) % v.len()].clone());
    }
    out
}

/// Compares instruction counts: `measure` is given one wrong value and returns its count.
/// A difference counts only if it is still there after every value was measured three more times
/// (the least count of a value is its cost).
pub fn same_cost(
    what: &str,
    cands: &[(String, Vec<u8>)],
    mut measure: impl FnMut(&[u8]) -> Result<u64, crate::fw::Fail>,
) -> crate::fw::R {
    let Some(first) = cands.first() else { return Ok(()) };
    measure(&first.1)?; // warm-up
    let mut least = vec![u64::MAX; cands.len()];
    for _ in 0..4 {
        for (k, (_, q)) in cands.iter().enumerate() {
            least[k] = least[k].min(measure(q)?);
        }
        if least.iter().all(|x| *x == least[0]) {
            return Ok(());
        }
    }
    let (i, a) = least.iter().enumerate().min_by_key(|x| x.1).unwrap();
    let (j, b) = least.iter().enumerate().max_by_key(|x| x.1).unwrap();
    Err(crate::fw::Fail(format!(
        "{what}: rejecting a value ({}) takes {a} instructions, another ({}) takes {b}",
        cands[i].0, cands[j].0
    )))
}
