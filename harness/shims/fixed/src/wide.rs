//! 256-bit helpers for exact 128-bit fixed-point arithmetic.

/// Full 128x128 -> 256 bit unsigned product as (hi, lo).
#[inline]
pub fn umul(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = u64::MAX as u128;
    let (ah, al) = (a >> 64, a & M);
    let (bh, bl) = (b >> 64, b & M);
    if ah == 0 && bh == 0 {
        return (0, al * bl);
    }
    let ll = al * bl;
    let lh = al * bh;
    let hl = ah * bl;
    let hh = ah * bh;
    let mid = (ll >> 64) + (lh & M) + (hl & M);
    let lo = (ll & M) | (mid << 64);
    let hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
    (hi, lo)
}

/// (hi,lo) / d -> 256-bit quotient (hi, lo) and remainder.
pub fn udiv(hi: u128, lo: u128, d: u128) -> ((u128, u128), u128) {
    assert!(d != 0);
    if hi == 0 {
        return ((0, lo / d), lo % d);
    }
    let qhi = hi / d;
    let mut r = hi % d;
    // fast path: d fits into 64 bits
    if d <= u64::MAX as u128 {
        let n1 = (r << 64) | (lo >> 64);
        let q1 = n1 / d;
        let r1 = n1 % d;
        let n0 = (r1 << 64) | (lo & u64::MAX as u128);
        let q0 = n0 / d;
        return ((qhi, (q1 << 64) | q0), n0 % d);
    }
    let mut q: u128 = 0;
    for i in (0..128).rev() {
        let carry = r >> 127;
        r = (r << 1) | ((lo >> i) & 1);
        q <<= 1;
        if carry == 1 || r >= d {
            r = r.wrapping_sub(d);
            q |= 1;
        }
    }
    ((qhi, q), r)
}

/// Shift (hi, lo) right by s bits (s < 256). Returns (hi, lo, any non-zero bit lost).
pub fn ushr(hi: u128, lo: u128, s: u32) -> (u128, u128, bool) {
    if s == 0 {
        (hi, lo, false)
    } else if s < 128 {
        (
            hi >> s,
            (lo >> s) | (hi << (128 - s)),
            (lo & ((1u128 << s) - 1)) != 0,
        )
    } else if s == 128 {
        (0, hi, lo != 0)
    } else {
        let t = s - 128;
        (0, hi >> t, lo != 0 || (hi & ((1u128 << t) - 1)) != 0)
    }
}

/// Shift lo left by s bits (s < 128) into (hi, lo)
pub fn ushl(v: u128, s: u32) -> (u128, u128) {
    if s == 0 {
        (0, v)
    } else {
        (v >> (128 - s), v << s)
    }
}
