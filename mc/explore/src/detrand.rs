//! Deterministic randomness: interposes `getrandom` so that hash seeds and
//! UUIDs are a function of the execution only.
use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) };
    static ORDER: Cell<(Order, u32)> = const { Cell::new((Order::Any, 0)) };
}
/// Reset the stream of this thread.
pub fn det_reset() {
    STATE.with(|s| s.set(0x9E3779B97F4A7C15));
    det_order(Order::Any);
}
/// Select one of several streams for this thread (e.g. per system).
pub fn det_seed_byte(b: u8) {
    STATE.with(|s| s.set(0x9E3779B97F4A7C15 ^ ((b as u64 + 1) << 40)));
}
/// How successive 128 bit values compare as big endian numbers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Any,
    Ascending,
    Descending,
    /// every second one is larger than all of the others, which are ascending
    Alternating,
}
pub fn det_order(o: Order) {
    ORDER.with(|x| x.set((o, 0)));
}
fn next() -> u64 {
    STATE
        .try_with(|s| {
            let mut z = s.get().wrapping_add(0x9E3779B97F4A7C15);
            s.set(z);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        })
        .unwrap_or(0x1234_5678_9abc_def0)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    _flags: libc::c_uint,
) -> libc::ssize_t {
    let mut p = buf as *mut u8;
    let mut left = len;
    while left > 0 {
        let b = next().to_le_bytes();
        let n = left.min(8);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
            p = p.add(n);
        }
        left -= n;
    }
    if len == 16
        && let Ok((o, n)) = ORDER.try_with(|x| {
            let (o, n) = x.get();
            x.set((o, n + 1));
            (o, n)
        })
    {
        let v = match o {
            Order::Any => return len as libc::ssize_t,
            Order::Ascending => n,
            Order::Descending => u32::MAX - n,
            Order::Alternating => n | (n & 1) << 31,
        };
        unsafe { std::ptr::copy_nonoverlapping(v.to_be_bytes().as_ptr(), buf as *mut u8, 4) };
    }
    len as libc::ssize_t
}
