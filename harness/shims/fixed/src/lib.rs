//! Host re-implementation of the parts of `fixed` 1.11 that mango-v4 relies on.
//!
//! Semantics follow the documentation of `fixed` 1.11 and the "debug-assert-in-release" fork
//! feature: plain operators panic on overflow, multiplication rounds towards -inf, division
//! rounds towards zero, conversion to integers and to types with fewer fractional bits rounds
//! towards -inf, conversions from/to floats and strings round to nearest (ties to even).
#![allow(clippy::all)]

pub mod wide;
use core::cmp::Ordering;
use core::fmt;
use core::ops::*;
use wide::*;

/// Exact neutral representation of a finite number: (-1)^neg * mant * 2^exp
#[derive(Clone, Copy, Debug)]
pub struct Parts {
    pub neg: bool,
    pub mant: u128,
    pub exp: i32,
    /// true for values coming from a float (rounds to nearest instead of down)
    pub nearest: bool,
    pub nan: bool,
    pub inf: bool,
}

impl Parts {
    fn int(neg: bool, mant: u128) -> Self {
        Parts {
            neg,
            mant,
            exp: 0,
            nearest: false,
            nan: false,
            inf: false,
        }
    }

    /// Convert to integer multiple of 2^-frac. Returns (neg, magnitude, overflow)
    fn to_scaled(self, frac: i32) -> (bool, u128, bool) {
        if self.mant == 0 {
            return (false, 0, false);
        }
        let shift = self.exp + frac;
        if shift >= 0 {
            if shift >= 128 || self.mant.leading_zeros() < shift as u32 {
                let m = if shift >= 128 { 0 } else { self.mant << shift };
                return (self.neg, m, true);
            }
            (self.neg, self.mant << shift, false)
        } else {
            let s = (-shift) as u32;
            let (q, rem_nonzero, half_cmp) = if s > 128 {
                (0u128, true, Ordering::Less)
            } else if s == 128 {
                (0u128, true, self.mant.cmp(&(1u128 << 127)))
            } else {
                let rem = self.mant & ((1u128 << s) - 1);
                (self.mant >> s, rem != 0, rem.cmp(&(1u128 << (s - 1))))
            };
            let q = if self.nearest {
                match half_cmp {
                    Ordering::Greater => q + 1,
                    Ordering::Equal => q + (q & 1),
                    Ordering::Less => q,
                }
            } else if self.neg && rem_nonzero {
                q + 1
            } else {
                q
            };
            (self.neg, q, false)
        }
    }
}

pub mod traits {
    use super::*;

    /// Anything that can be converted to a fixed-point number.
    pub trait ToFixed: Copy {
        fn to_parts(self) -> Parts;
        fn to_fixed<F: FromFixed>(self) -> F
        where
            Self: Sized,
        {
            F::from_parts(self.to_parts())
        }
        fn checked_to_fixed<F: FromFixed>(self) -> Option<F>
        where
            Self: Sized,
        {
            F::checked_from_parts(self.to_parts())
        }
    }

    /// Anything that can be converted from a fixed-point number.
    pub trait FromFixed: Copy {
        fn overflowing_from_parts(p: Parts) -> (Self, bool);
        fn saturated(neg: bool) -> Self;
        fn checked_from_parts(p: Parts) -> Option<Self> {
            if p.nan || p.inf {
                return None;
            }
            let (v, o) = Self::overflowing_from_parts(p);
            if o {
                None
            } else {
                Some(v)
            }
        }
        fn from_parts(p: Parts) -> Self {
            assert!(!p.nan, "NaN is not finite");
            assert!(!p.inf, "infinite is not finite");
            let (v, o) = Self::overflowing_from_parts(p);
            assert!(!o, "overflow");
            v
        }
        fn saturating_from_parts(p: Parts) -> Self {
            assert!(!p.nan, "NaN");
            if p.inf {
                return Self::saturated(p.neg);
            }
            let (v, o) = Self::overflowing_from_parts(p);
            if o {
                Self::saturated(p.neg)
            } else {
                v
            }
        }
    }

    pub trait LossyFrom<S>: Sized {
        fn lossy_from(src: S) -> Self;
    }
    pub trait LossyInto<D>: Sized {
        fn lossy_into(self) -> D;
    }
    impl<S, D: LossyFrom<S>> LossyInto<D> for S {
        fn lossy_into(self) -> D {
            D::lossy_from(self)
        }
    }

    pub trait Fixed: ToFixed + FromFixed + Copy {
        type Bits;
        fn to_bits(self) -> Self::Bits;
        fn from_bits(b: Self::Bits) -> Self;
    }
}
use traits::*;

macro_rules! int_conv {
    ($($t:ident, $signed:tt);* $(;)?) => {$(
        impl ToFixed for $t {
            #[inline]
            fn to_parts(self) -> Parts {
                Parts::int(int_conv!(@neg self $signed), int_conv!(@abs self $signed))
            }
        }
        impl FromFixed for $t {
            #[inline]
            fn overflowing_from_parts(p: Parts) -> (Self, bool) {
                let p = Parts { nearest: false, ..p };
                let (neg, m, o) = p.to_scaled(0);
                if neg {
                    let v = (m as $t).wrapping_neg();
                    let fits = int_conv!(@negfit m $t $signed);
                    (v, o || !fits)
                } else {
                    (m as $t, o || m > <$t>::MAX as u128)
                }
            }
            fn saturated(neg: bool) -> Self { if neg { <$t>::MIN } else { <$t>::MAX } }
        }
    )*};
    (@neg $s:ident true) => { $s < 0 };
    (@neg $s:ident false) => { false };
    (@abs $s:ident true) => { $s.unsigned_abs() as u128 };
    (@abs $s:ident false) => { $s as u128 };
    (@negfit $m:ident $t:ident true) => { $m <= (<$t>::MAX as u128) + 1 };
    (@negfit $m:ident $t:ident false) => { $m == 0 };
}
int_conv! { i8, true; i16, true; i32, true; i64, true; i128, true; isize, true;
            u8, false; u16, false; u32, false; u64, false; u128, false; usize, false; }

impl ToFixed for bool {
    fn to_parts(self) -> Parts {
        Parts::int(false, self as u128)
    }
}

macro_rules! float_conv {
    ($t:ty, $bits:ty, $mant_bits:expr, $exp_bits:expr) => {
        impl ToFixed for $t {
            #[inline]
            fn to_parts(self) -> Parts {
                let b = self.to_bits();
                let neg = (b >> ($mant_bits + $exp_bits)) & 1 == 1;
                let e = ((b >> $mant_bits) & ((1 << $exp_bits) - 1)) as i32;
                let m = (b & ((1 << $mant_bits) - 1)) as u128;
                let bias = (1 << ($exp_bits - 1)) - 1;
                let emax = (1 << $exp_bits) - 1;
                if e == emax {
                    return Parts { neg, mant: 0, exp: 0, nearest: true, nan: m != 0, inf: m == 0 };
                }
                let (mant, exp) = if e == 0 {
                    (m, 1 - bias - $mant_bits)
                } else {
                    (m | (1 << $mant_bits), e - bias - $mant_bits)
                };
                Parts { neg, mant, exp, nearest: true, nan: false, inf: false }
            }
        }
        impl FromFixed for $t {
            #[inline]
            fn overflowing_from_parts(p: Parts) -> (Self, bool) {
                if p.mant == 0 {
                    return (0.0, false);
                }
                // round mantissa to nearest even with $mant_bits + 1 significant bits
                let prec = $mant_bits as u32 + 1;
                let nb = 128 - p.mant.leading_zeros();
                let (m, e) = if nb <= prec {
                    (p.mant, p.exp)
                } else {
                    let s = nb - prec;
                    let rem = p.mant & ((1u128 << s) - 1);
                    let half = 1u128 << (s - 1);
                    let q = p.mant >> s;
                    let q = if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q };
                    (q, p.exp + s as i32)
                };
                // exponents of fixed-point types stay far away from subnormals/overflow for f64;
                // powi is exact for powers of two in range.
                let v = (m as $t) * (2.0 as $t).powi(e);
                (if p.neg { -v } else { v }, false)
            }
            fn saturated(neg: bool) -> Self { if neg { <$t>::MIN } else { <$t>::MAX } }
        }
    };
}
float_conv!(f32, u32, 23, 8);
float_conv!(f64, u64, 52, 11);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseFixedError(());
impl fmt::Display for ParseFixedError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("invalid fixed-point literal")
    }
}
impl std::error::Error for ParseFixedError {}

/// Parses decimal, returning (neg, magnitude scaled by 2^frac, overflow)
fn parse_dec(s: &str, frac: u32) -> Result<(bool, u128, bool), ParseFixedError> {
    let (neg, rest) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let mut it = rest.splitn(2, '.');
    let ip = it.next().unwrap();
    let fp = it.next().unwrap_or("");
    if ip.is_empty() && fp.is_empty() {
        return Err(ParseFixedError(()));
    }
    let mut int: u128 = 0;
    let mut overflow = false;
    for c in ip.bytes() {
        if !c.is_ascii_digit() {
            return Err(ParseFixedError(()));
        }
        match int.checked_mul(10).and_then(|v| v.checked_add((c - b'0') as u128)) {
            Some(v) => int = v,
            None => overflow = true,
        }
    }
    if fp.bytes().any(|c| !c.is_ascii_digit()) {
        return Err(ParseFixedError(()));
    }
    // fraction bits by repeated doubling of the decimal digits
    let mut digits: Vec<u8> = fp.bytes().map(|c| c - b'0').collect();
    let mut fbits: u128 = 0;
    for _ in 0..frac {
        let mut carry = 0;
        for d in digits.iter_mut().rev() {
            let v = *d * 2 + carry;
            *d = v % 10;
            carry = v / 10;
        }
        fbits = (fbits << 1) | carry as u128;
    }
    // rounding: compare rest with 0.5
    let rest_cmp = {
        let first = digits.first().copied().unwrap_or(0);
        let others = digits.iter().skip(1).any(|d| *d != 0);
        if first > 5 || (first == 5 && others) {
            Ordering::Greater
        } else if first == 5 {
            Ordering::Equal
        } else {
            Ordering::Less
        }
    };
    if frac > 0 && frac < 128 && int.leading_zeros() < frac {
        overflow = true;
    }
    let base = if frac >= 128 { fbits } else { (int << frac) | fbits };
    let inc = match rest_cmp {
        Ordering::Greater => 1,
        Ordering::Equal => base & 1,
        Ordering::Less => 0,
    };
    let (m, o) = base.overflowing_add(inc);
    Ok((neg, m, overflow || o))
}

fn fmt_fixed(neg: bool, mag: u128, frac: u32, f: &mut fmt::Formatter) -> fmt::Result {
    let int = if frac >= 128 { 0 } else { mag >> frac };
    let fmask = if frac == 0 {
        0
    } else if frac >= 128 {
        u128::MAX
    } else {
        (1u128 << frac) - 1
    };
    let fr = mag & fmask;
    // exact decimal expansion of the fraction
    let mut digits: Vec<u8> = vec![];
    {
        let (mut hi, mut lo) = (0u128, fr);
        let _ = &mut hi;
        for _ in 0..frac {
            let (h, l) = umul(lo, 10);
            let (_, d, _) = ushr(h, l, frac);
            digits.push(d as u8);
            lo = l & fmask;
            if lo == 0 {
                break;
            }
        }
    }
    let mut int = int;
    let want = match f.precision() {
        Some(p) => p,
        None => {
            // shortest number of digits such that rounding error < half ulp
            let mut n = digits.len();
            for k in 0..=digits.len() {
                let (_, r) = round_digits(int, &digits, k);
                let s: String = format!(
                    "{}.{}",
                    r.0,
                    r.1.iter().map(|d| (d + b'0') as char).collect::<String>()
                );
                if let Ok((_, m, false)) = parse_dec(&s, frac) {
                    if m == mag {
                        n = k;
                        break;
                    }
                }
            }
            n
        }
    };
    let (_, (i2, ds)) = round_digits(int, &digits, want);
    int = i2;
    let mut s = format!("{}", int);
    if want > 0 {
        s.push('.');
        for i in 0..want {
            s.push((ds.get(i).copied().unwrap_or(0) + b'0') as char);
        }
    }
    f.pad_integral(!neg, "", &s)
}

fn round_digits(int: u128, digits: &[u8], k: usize) -> ((), (u128, Vec<u8>)) {
    if k >= digits.len() {
        return ((), (int, digits.to_vec()));
    }
    let mut ds = digits[..k].to_vec();
    let mut i = int;
    let rest = &digits[k..];
    let tail = rest[1..].iter().any(|d| *d != 0);
    let odd = ds.last().map(|d| d & 1 == 1).unwrap_or(i & 1 == 1);
    let up = rest[0] > 5 || (rest[0] == 5 && (tail || odd));
    if up {
        let mut carry = true;
        for d in ds.iter_mut().rev() {
            if *d == 9 {
                *d = 0;
            } else {
                *d += 1;
                carry = false;
                break;
            }
        }
        if carry {
            i += 1;
        }
    }
    ((), (i, ds))
}

macro_rules! sel {
    (true, {$($a:tt)*}, {$($b:tt)*}) => { $($a)* };
    (false, {$($a:tt)*}, {$($b:tt)*}) => { $($b)* };
}

macro_rules! selx {
    (true, {$($a:tt)*}, {$($b:tt)*}) => {{ $($a)* }};
    (false, {$($a:tt)*}, {$($b:tt)*}) => {{ $($b)* }};
}

macro_rules! fixed_type {
    ($name:ident, $inner:ty, $uinner:ty, $nbits:expr, $frac:expr, $signed:tt) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #[repr(transparent)]
        pub struct $name {
            bits: $inner,
        }
        unsafe impl bytemuck::Zeroable for $name {}
        unsafe impl bytemuck::Pod for $name {}

        impl $name {
            pub const FRAC_NBITS: u32 = $frac;
            pub const INT_NBITS: u32 = $nbits - $frac;
            pub const ZERO: Self = Self { bits: 0 };
            pub const DELTA: Self = Self { bits: 1 };
            pub const MIN: Self = Self { bits: <$inner>::MIN };
            pub const MAX: Self = Self { bits: <$inner>::MAX };
            pub const ONE: Self = Self { bits: if $nbits - $frac > (if $signed { 1 } else { 0 }) { 1 << ($frac % $nbits) } else { 0 } };

            #[inline]
            pub const fn from_bits(bits: $inner) -> Self { Self { bits } }
            #[inline]
            pub const fn to_bits(self) -> $inner { self.bits }
            pub const fn to_le_bytes(self) -> [u8; $nbits / 8] { self.bits.to_le_bytes() }
            pub const fn to_be_bytes(self) -> [u8; $nbits / 8] { self.bits.to_be_bytes() }
            pub const fn to_ne_bytes(self) -> [u8; $nbits / 8] { self.bits.to_ne_bytes() }
            pub const fn from_le_bytes(b: [u8; $nbits / 8]) -> Self { Self { bits: <$inner>::from_le_bytes(b) } }
            pub const fn from_be_bytes(b: [u8; $nbits / 8]) -> Self { Self { bits: <$inner>::from_be_bytes(b) } }
            pub const fn from_ne_bytes(b: [u8; $nbits / 8]) -> Self { Self { bits: <$inner>::from_ne_bytes(b) } }

            #[inline]
            pub fn from_num<S: ToFixed>(src: S) -> Self { <Self as FromFixed>::from_parts(src.to_parts()) }
            #[inline]
            pub fn checked_from_num<S: ToFixed>(src: S) -> Option<Self> { <Self as FromFixed>::checked_from_parts(src.to_parts()) }
            pub fn saturating_from_num<S: ToFixed>(src: S) -> Self { <Self as FromFixed>::saturating_from_parts(src.to_parts()) }
            pub fn wrapping_from_num<S: ToFixed>(src: S) -> Self { Self::overflowing_from_num(src).0 }
            pub fn overflowing_from_num<S: ToFixed>(src: S) -> (Self, bool) {
                let p = src.to_parts();
                assert!(!p.nan && !p.inf, "not finite");
                <Self as FromFixed>::overflowing_from_parts(p)
            }
            pub fn unwrapped_from_num<S: ToFixed>(src: S) -> Self { Self::checked_from_num(src).expect("overflow") }
            #[inline]
            pub fn to_num<D: FromFixed>(self) -> D { D::from_parts(self.to_parts()) }
            #[inline]
            pub fn checked_to_num<D: FromFixed>(self) -> Option<D> { D::checked_from_parts(self.to_parts()) }
            pub fn saturating_to_num<D: FromFixed>(self) -> D { D::saturating_from_parts(self.to_parts()) }
            pub fn wrapping_to_num<D: FromFixed>(self) -> D { D::overflowing_from_parts(self.to_parts()).0 }
            pub fn overflowing_to_num<D: FromFixed>(self) -> (D, bool) { D::overflowing_from_parts(self.to_parts()) }

            #[inline]
            fn mag(self) -> (bool, u128) {
                selx!($signed, { (self.bits < 0, self.bits.unsigned_abs() as u128) }, { (false, self.bits as u128) })
            }
            /// build from sign and (hi, lo) magnitude
            #[inline]
            fn build(neg: bool, hi: u128, lo: u128) -> (Self, bool) {
                selx!($signed, {
                    if neg {
                        let o = hi != 0 || lo > (<$inner>::MAX as u128) + 1;
                        (Self { bits: (lo as $inner).wrapping_neg() }, o)
                    } else {
                        let o = hi != 0 || lo > <$inner>::MAX as u128;
                        (Self { bits: lo as $inner }, o)
                    }
                }, {
                    let o = hi != 0 || lo > <$inner>::MAX as u128 || (neg && lo != 0);
                    let b = lo as $inner;
                    (Self { bits: if neg { b.wrapping_neg() } else { b } }, o)
                })
            }

            pub fn overflowing_mul(self, rhs: Self) -> (Self, bool) {
                let (an, a) = self.mag();
                let (bn, b) = rhs.mag();
                let neg = an ^ bn;
                let (h, l) = umul(a, b);
                let (mut h, mut l, lost) = ushr(h, l, $frac);
                if neg && lost {
                    // round to -inf
                    let (l2, c) = l.overflowing_add(1);
                    l = l2;
                    if c { h += 1; }
                }
                Self::build(neg, h, l)
            }
            pub fn overflowing_div(self, rhs: Self) -> (Self, bool) {
                let (an, a) = self.mag();
                let (bn, b) = rhs.mag();
                if b == 0 { panic!("attempt to divide by zero"); }
                let (h, l) = if $frac >= 128 { (a, 0) } else { ushl(a, $frac % 128) };
                let ((qh, ql), _) = udiv(h, l, b);
                Self::build(an ^ bn, qh, ql)
            }
            pub fn overflowing_add(self, rhs: Self) -> (Self, bool) { let (b, o) = self.bits.overflowing_add(rhs.bits); (Self { bits: b }, o) }
            pub fn overflowing_sub(self, rhs: Self) -> (Self, bool) { let (b, o) = self.bits.overflowing_sub(rhs.bits); (Self { bits: b }, o) }
            pub fn overflowing_mul_int(self, rhs: $inner) -> (Self, bool) { let (b, o) = self.bits.overflowing_mul(rhs); (Self { bits: b }, o) }
            pub fn overflowing_div_int(self, rhs: $inner) -> (Self, bool) { let (b, o) = self.bits.overflowing_div(rhs); (Self { bits: b }, o) }
            pub fn overflowing_neg(self) -> (Self, bool) { let (b, o) = self.bits.overflowing_neg(); (Self { bits: b }, o) }

            pub fn checked_mul(self, rhs: Self) -> Option<Self> { match self.overflowing_mul(rhs) { (v, false) => Some(v), _ => None } }
            pub fn checked_div(self, rhs: Self) -> Option<Self> { if rhs.bits == 0 { return None; } match self.overflowing_div(rhs) { (v, false) => Some(v), _ => None } }
            pub fn checked_rem(self, rhs: Self) -> Option<Self> { self.bits.checked_rem(rhs.bits).map(|bits| Self { bits }) }
            pub fn checked_add(self, rhs: Self) -> Option<Self> { self.bits.checked_add(rhs.bits).map(|bits| Self { bits }) }
            pub fn checked_sub(self, rhs: Self) -> Option<Self> { self.bits.checked_sub(rhs.bits).map(|bits| Self { bits }) }
            pub fn checked_neg(self) -> Option<Self> { self.bits.checked_neg().map(|bits| Self { bits }) }
            pub fn checked_mul_int(self, rhs: $inner) -> Option<Self> { self.bits.checked_mul(rhs).map(|bits| Self { bits }) }
            pub fn checked_div_int(self, rhs: $inner) -> Option<Self> { self.bits.checked_div(rhs).map(|bits| Self { bits }) }
            pub fn checked_rem_int(self, rhs: $inner) -> Option<Self> { Self::checked_from_num(rhs).and_then(|r| self.checked_rem(r)) }
            pub fn checked_mul_add(self, mul: Self, add: Self) -> Option<Self> {
                self.checked_mul(mul).and_then(|v| v.checked_add(add))
            }
            pub fn mul_add(self, mul: Self, add: Self) -> Self { self.checked_mul_add(mul, add).expect("overflow") }
            pub fn recip(self) -> Self { Self::ONE / self }
            pub fn checked_recip(self) -> Option<Self> { Self::ONE.checked_div(self) }

            pub fn wrapping_mul(self, rhs: Self) -> Self { self.overflowing_mul(rhs).0 }
            pub fn wrapping_div(self, rhs: Self) -> Self { self.overflowing_div(rhs).0 }
            pub fn wrapping_add(self, rhs: Self) -> Self { self.overflowing_add(rhs).0 }
            pub fn wrapping_sub(self, rhs: Self) -> Self { self.overflowing_sub(rhs).0 }
            pub fn wrapping_neg(self) -> Self { Self { bits: self.bits.wrapping_neg() } }
            pub fn wrapping_mul_int(self, rhs: $inner) -> Self { Self { bits: self.bits.wrapping_mul(rhs) } }

            fn result_neg(self, rhs: Self) -> bool { self.mag().0 ^ rhs.mag().0 }
            pub fn saturating_mul(self, rhs: Self) -> Self { match self.overflowing_mul(rhs) { (v, false) => v, _ => if self.result_neg(rhs) { Self::MIN } else { Self::MAX } } }
            pub fn saturating_div(self, rhs: Self) -> Self { match self.overflowing_div(rhs) { (v, false) => v, _ => if self.result_neg(rhs) { Self::MIN } else { Self::MAX } } }
            pub fn saturating_add(self, rhs: Self) -> Self { Self { bits: self.bits.saturating_add(rhs.bits) } }
            pub fn saturating_sub(self, rhs: Self) -> Self { Self { bits: self.bits.saturating_sub(rhs.bits) } }
            pub fn saturating_mul_int(self, rhs: $inner) -> Self { Self { bits: self.bits.saturating_mul(rhs) } }

            pub fn unwrapped_mul(self, rhs: Self) -> Self { self.checked_mul(rhs).expect("overflow") }
            pub fn unwrapped_div(self, rhs: Self) -> Self { self.checked_div(rhs).expect("overflow") }
            pub fn unwrapped_add(self, rhs: Self) -> Self { self.checked_add(rhs).expect("overflow") }
            pub fn unwrapped_sub(self, rhs: Self) -> Self { self.checked_sub(rhs).expect("overflow") }

            const FRAC_MASK: $inner = if $frac >= $nbits { !0 } else { (((1 as $uinner) << ($frac % $nbits)) - 1) as $inner };
            pub fn floor(self) -> Self { self.checked_floor().expect("overflow") }
            pub fn checked_floor(self) -> Option<Self> { Some(Self { bits: self.bits & !Self::FRAC_MASK }) }
            pub fn checked_ceil(self) -> Option<Self> {
                if self.bits & Self::FRAC_MASK == 0 { return Some(self); }
                Self { bits: self.bits & !Self::FRAC_MASK }.checked_add(Self::ONE)
            }
            pub fn ceil(self) -> Self { self.checked_ceil().expect("overflow") }
            pub fn saturating_ceil(self) -> Self { self.checked_ceil().unwrap_or(Self::MAX) }
            pub fn int(self) -> Self { Self { bits: self.bits & !Self::FRAC_MASK } }
            pub fn frac(self) -> Self { Self { bits: self.bits & Self::FRAC_MASK } }
            pub fn round_to_zero(self) -> Self {
                let (neg, _) = self.mag();
                if neg { self.ceil() } else { self.floor() }
            }
            /// ties away from zero
            pub fn checked_round(self) -> Option<Self> {
                let (neg, m) = self.mag();
                let half = 1u128 << ($frac - 1);
                let mask = Self::FRAC_MASK as $uinner as u128;
                let base = m & !mask;
                let r = if m & mask >= half { base.checked_add(1u128 << $frac)? } else { base };
                match Self::build(neg, 0, r) { (v, false) => Some(v), _ => None }
            }
            pub fn round(self) -> Self { self.checked_round().expect("overflow") }
            pub fn checked_round_ties_to_even(self) -> Option<Self> {
                let fl = self.int();
                let fr = self.frac().bits;
                let half = (1 as $inner) << ($frac - 1);
                let odd = (fl.bits >> $frac) & 1 == 1;
                if fr > half || (fr == half && odd) { fl.checked_add(Self::ONE) } else { Some(fl) }
            }
            pub fn round_ties_to_even(self) -> Self { self.checked_round_ties_to_even().expect("overflow") }

            #[inline]
            pub fn is_zero(self) -> bool { self.bits == 0 }
            pub const fn leading_zeros(self) -> u32 { self.bits.leading_zeros() }
            pub const fn trailing_zeros(self) -> u32 { self.bits.trailing_zeros() }
            pub const fn count_ones(self) -> u32 { self.bits.count_ones() }
            pub fn dist(self, o: Self) -> Self { if self > o { self - o } else { o - self } }
            pub fn abs_diff(self, o: Self) -> Self { self.dist(o) }
            pub fn mean(self, o: Self) -> Self { Self { bits: (self.bits & o.bits) + ((self.bits ^ o.bits) >> 1) } }

            pub fn checked_shl(self, rhs: u32) -> Option<Self> { self.bits.checked_shl(rhs).map(|bits| Self { bits }) }
            pub fn checked_shr(self, rhs: u32) -> Option<Self> { self.bits.checked_shr(rhs).map(|bits| Self { bits }) }
            pub fn checked_to_bits(self) -> Option<$inner> { Some(self.bits) }
            fn from_dec(s: &str) -> Result<(Self, bool), ParseFixedError> {
                let (neg, m, o) = parse_dec(s, $frac)?;
                let (v, o2) = Self::build(neg, 0, m);
                Ok((v, o || o2))
            }
        }

        sel!($signed, {
            impl $name {
                #[inline]
                pub const fn is_positive(self) -> bool { self.bits > 0 }
                #[inline]
                pub const fn is_negative(self) -> bool { self.bits < 0 }
                pub fn abs(self) -> Self { self.checked_abs().expect("overflow") }
                pub fn checked_abs(self) -> Option<Self> { self.bits.checked_abs().map(|bits| Self { bits }) }
                pub fn saturating_abs(self) -> Self { self.checked_abs().unwrap_or(Self::MAX) }
                pub fn wrapping_abs(self) -> Self { Self { bits: self.bits.wrapping_abs() } }
                pub fn signum(self) -> Self { Self::from_num(self.bits.signum() as i8) }
                pub fn saturating_neg(self) -> Self { self.checked_neg().unwrap_or(Self::MAX) }
            }
            impl Neg for $name { type Output = Self; #[inline] fn neg(self) -> Self { Self { bits: self.bits.checked_neg().expect("overflow") } } }
            impl Neg for &$name { type Output = $name; fn neg(self) -> $name { -*self } }
        }, {
            impl $name {
                pub fn saturating_neg(self) -> Self { Self::ZERO }
                pub fn is_power_of_two(self) -> bool { self.bits.is_power_of_two() }
            }
        });

        impl ToFixed for $name {
            #[inline]
            fn to_parts(self) -> Parts {
                let (neg, mant) = self.mag();
                Parts { neg, mant, exp: -($frac as i32), nearest: false, nan: false, inf: false }
            }
        }
        impl FromFixed for $name {
            #[inline]
            fn overflowing_from_parts(p: Parts) -> (Self, bool) {
                let (neg, m, o) = p.to_scaled($frac);
                let (v, o2) = Self::build(neg, 0, m);
                (v, o || o2)
            }
            fn saturated(neg: bool) -> Self { if neg { Self::MIN } else { Self::MAX } }
        }
        impl Fixed for $name {
            type Bits = $inner;
            fn to_bits(self) -> $inner { self.bits }
            fn from_bits(bits: $inner) -> Self { Self { bits } }
        }

        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let (n, m) = self.mag(); fmt_fixed(n, m, $frac, f) }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let (n, m) = self.mag(); fmt_fixed(n, m, $frac, f) }
        }
        impl core::str::FromStr for $name {
            type Err = ParseFixedError;
            fn from_str(s: &str) -> Result<Self, ParseFixedError> {
                match Self::from_dec(s)? { (v, false) => Ok(v), _ => Err(ParseFixedError(())) }
            }
        }

        impl Add for $name { type Output = Self; #[inline] fn add(self, r: Self) -> Self { Self { bits: self.bits.checked_add(r.bits).expect("overflow") } } }
        impl Sub for $name { type Output = Self; #[inline] fn sub(self, r: Self) -> Self { Self { bits: self.bits.checked_sub(r.bits).expect("overflow") } } }
        impl Mul for $name { type Output = Self; #[inline] fn mul(self, r: Self) -> Self { self.checked_mul(r).expect("overflow") } }
        impl Div for $name { type Output = Self; #[inline] fn div(self, r: Self) -> Self { let (v, o) = self.overflowing_div(r); assert!(!o, "overflow"); v } }
        impl Rem for $name { type Output = Self; fn rem(self, r: Self) -> Self { Self { bits: self.bits % r.bits } } }
        impl Mul<$inner> for $name { type Output = Self; fn mul(self, r: $inner) -> Self { self.checked_mul_int(r).expect("overflow") } }
        impl Mul<$name> for $inner { type Output = $name; fn mul(self, r: $name) -> $name { r.checked_mul_int(self).expect("overflow") } }
        impl Div<$inner> for $name { type Output = Self; fn div(self, r: $inner) -> Self { self.checked_div_int(r).expect("overflow") } }
        impl MulAssign<$inner> for $name { fn mul_assign(&mut self, r: $inner) { *self = *self * r } }
        impl DivAssign<$inner> for $name { fn div_assign(&mut self, r: $inner) { *self = *self / r } }
        impl BitAnd for $name { type Output = Self; fn bitand(self, r: Self) -> Self { Self { bits: self.bits & r.bits } } }
        impl BitOr for $name { type Output = Self; fn bitor(self, r: Self) -> Self { Self { bits: self.bits | r.bits } } }
        impl BitXor for $name { type Output = Self; fn bitxor(self, r: Self) -> Self { Self { bits: self.bits ^ r.bits } } }
        impl Not for $name { type Output = Self; fn not(self) -> Self { Self { bits: !self.bits } } }
        fixed_type!(@refops $name Add add AddAssign add_assign);
        fixed_type!(@refops $name Sub sub SubAssign sub_assign);
        fixed_type!(@refops $name Mul mul MulAssign mul_assign);
        fixed_type!(@refops $name Div div DivAssign div_assign);
        fixed_type!(@refops $name Rem rem RemAssign rem_assign);
        fixed_type!(@shift $name i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
        impl core::iter::Sum for $name { fn sum<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ZERO, |a, b| a + b) } }
        impl<'a> core::iter::Sum<&'a $name> for $name { fn sum<I: Iterator<Item = &'a $name>>(it: I) -> Self { it.fold(Self::ZERO, |a, b| a + *b) } }
        impl core::iter::Product for $name { fn product<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::ONE, |a, b| a * b) } }

        fixed_type!(@cmp $name i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);

        #[cfg(feature = "borsh")]
        impl borsh::BorshSerialize for $name {
            fn serialize<W: borsh::maybestd::io::Write>(&self, w: &mut W) -> borsh::maybestd::io::Result<()> { borsh::BorshSerialize::serialize(&self.bits, w) }
        }
        #[cfg(feature = "borsh")]
        impl borsh::BorshDeserialize for $name {
            fn deserialize_reader<R: borsh::maybestd::io::Read>(r: &mut R) -> borsh::maybestd::io::Result<Self> { Ok(Self { bits: borsh::BorshDeserialize::deserialize_reader(r)? }) }
        }
        #[cfg(feature = "serde")]
        impl serde::Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                if s.is_human_readable() { s.serialize_str(&self.to_string()) } else { self.bits.serialize(s) }
            }
        }
        #[cfg(feature = "serde")]
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                use serde::de::Error;
                if d.is_human_readable() {
                    let s = <String as serde::Deserialize>::deserialize(d)?;
                    s.parse().map_err(D::Error::custom)
                } else {
                    Ok(Self { bits: <$inner as serde::Deserialize>::deserialize(d)? })
                }
            }
        }
    };
    (@refops $name:ident $tr:ident $f:ident $tra:ident $fa:ident) => {
        impl<'a> $tr<&'a $name> for $name { type Output = $name; #[inline] fn $f(self, r: &$name) -> $name { $tr::$f(self, *r) } }
        impl<'a> $tr<$name> for &'a $name { type Output = $name; #[inline] fn $f(self, r: $name) -> $name { $tr::$f(*self, r) } }
        impl<'a, 'b> $tr<&'a $name> for &'b $name { type Output = $name; #[inline] fn $f(self, r: &$name) -> $name { $tr::$f(*self, *r) } }
        impl $tra for $name { #[inline] fn $fa(&mut self, r: $name) { *self = $tr::$f(*self, r) } }
        impl<'a> $tra<&'a $name> for $name { #[inline] fn $fa(&mut self, r: &$name) { *self = $tr::$f(*self, *r) } }
    };
    (@shift $name:ident $($t:ty)*) => {$(
        impl Shl<$t> for $name { type Output = Self; fn shl(self, r: $t) -> Self { Self { bits: self.bits << r } } }
        impl Shr<$t> for $name { type Output = Self; fn shr(self, r: $t) -> Self { Self { bits: self.bits >> r } } }
        impl ShlAssign<$t> for $name { fn shl_assign(&mut self, r: $t) { self.bits = self.bits << r } }
        impl ShrAssign<$t> for $name { fn shr_assign(&mut self, r: $t) { self.bits = self.bits >> r } }
    )*};
    (@cmp $name:ident $($t:ty)*) => {$(
        impl PartialEq<$t> for $name { #[inline] fn eq(&self, o: &$t) -> bool { cmp_parts(self.to_parts(), o.to_parts()) == Some(Ordering::Equal) } }
        impl PartialEq<$name> for $t { #[inline] fn eq(&self, o: &$name) -> bool { cmp_parts(self.to_parts(), o.to_parts()) == Some(Ordering::Equal) } }
        impl PartialOrd<$t> for $name { #[inline] fn partial_cmp(&self, o: &$t) -> Option<Ordering> { cmp_parts(self.to_parts(), o.to_parts()) } }
        impl PartialOrd<$name> for $t { #[inline] fn partial_cmp(&self, o: &$name) -> Option<Ordering> { cmp_parts(self.to_parts(), o.to_parts()) } }
    )*};
}

/// Exact comparison
pub fn cmp_parts(a: Parts, b: Parts) -> Option<Ordering> {
    if a.nan || b.nan {
        return None;
    }
    let sgn = |p: &Parts| -> i32 {
        if p.inf {
            if p.neg { -2 } else { 2 }
        } else if p.mant == 0 {
            0
        } else if p.neg {
            -1
        } else {
            1
        }
    };
    let (sa, sb) = (sgn(&a), sgn(&b));
    if sa != sb || sa == 0 || sa.abs() == 2 {
        return Some(sa.cmp(&sb));
    }
    let m = cmp_mag(a.mant, a.exp, b.mant, b.exp);
    Some(if sa > 0 { m } else { m.reverse() })
}

fn cmp_mag(am: u128, ae: i32, bm: u128, be: i32) -> Ordering {
    let top = |m: u128, e: i32| 128 - m.leading_zeros() as i32 + e;
    let (ta, tb) = (top(am, ae), top(bm, be));
    if ta != tb {
        return ta.cmp(&tb);
    }
    // same top bit: normalise both to have the high bit set, then compare
    let an = am << am.leading_zeros();
    let bn = bm << bm.leading_zeros();
    an.cmp(&bn)
}

macro_rules! cross_cmp {
    ($($a:ident, $b:ident);* $(;)?) => {$(
        impl PartialEq<$b> for $a { fn eq(&self, o: &$b) -> bool { cmp_parts(self.to_parts(), o.to_parts()) == Some(Ordering::Equal) } }
        impl PartialEq<$a> for $b { fn eq(&self, o: &$a) -> bool { cmp_parts(self.to_parts(), o.to_parts()) == Some(Ordering::Equal) } }
        impl PartialOrd<$b> for $a { fn partial_cmp(&self, o: &$b) -> Option<Ordering> { cmp_parts(self.to_parts(), o.to_parts()) } }
        impl PartialOrd<$a> for $b { fn partial_cmp(&self, o: &$a) -> Option<Ordering> { cmp_parts(self.to_parts(), o.to_parts()) } }
    )*};
}

macro_rules! lossless_from {
    ($($name:ident : $($t:ty)*);* $(;)?) => {$($(
        impl From<$t> for $name { #[inline] fn from(v: $t) -> Self { Self::from_num(v) } }
        impl LossyFrom<$t> for $name { fn lossy_from(v: $t) -> Self { Self::from_num(v) } }
    )*)*};
}

pub mod types {
    use super::*;
    fixed_type!(I80F48, i128, u128, 128, 48, true);
    fixed_type!(U80F48, u128, u128, 128, 48, false);
    fixed_type!(I64F64, i128, u128, 128, 64, true);
    fixed_type!(U64F64, u128, u128, 128, 64, false);
    fixed_type!(I48F80, i128, u128, 128, 80, true);
    fixed_type!(U48F80, u128, u128, 128, 80, false);
    fixed_type!(I68F60, i128, u128, 128, 60, true);
    fixed_type!(U68F60, u128, u128, 128, 60, false);
    fixed_type!(I100F28, i128, u128, 128, 28, true);
    fixed_type!(U100F28, u128, u128, 128, 28, false);
    fixed_type!(I96F32, i128, u128, 128, 32, true);
    fixed_type!(U96F32, u128, u128, 128, 32, false);
    fixed_type!(I32F32, i64, u64, 64, 32, true);
    fixed_type!(U32F32, u64, u64, 64, 32, false);
    lossless_from! {
        I80F48: i8 i16 i32 i64 u8 u16 u32 u64 bool;
        U80F48: u8 u16 u32 u64 bool;
        I64F64: i8 i16 i32 i64 u8 u16 u32 bool;
        U64F64: u8 u16 u32 u64 bool;
        I48F80: i8 i16 i32 u8 u16 u32 bool;
        U48F80: u8 u16 u32 bool;
        I68F60: i8 i16 i32 i64 u8 u16 u32 u64 bool;
        U68F60: u8 u16 u32 u64 bool;
        I100F28: i8 i16 i32 i64 u8 u16 u32 u64 bool;
        U100F28: u8 u16 u32 u64 bool;
        I96F32: i8 i16 i32 i64 u8 u16 u32 u64 bool;
        U96F32: u8 u16 u32 u64 bool;
        I32F32: i8 i16 i32 u8 u16 bool;
        U32F32: u8 u16 u32 bool;
    }
    cross_cmp! {
        I80F48, U80F48; I80F48, I64F64; I80F48, U64F64; U80F48, U64F64; I80F48, I48F80; I80F48, U48F80;
        I80F48, I68F60; I80F48, I100F28; I80F48, I96F32; I80F48, I32F32; U64F64, I64F64; U80F48, I64F64;
    }
    impl From<I32F32> for I80F48 { fn from(v: I32F32) -> Self { Self::from_num(v) } }
    impl From<U32F32> for I80F48 { fn from(v: U32F32) -> Self { Self::from_num(v) } }

    pub mod extra {
        #[derive(Clone, Copy, Debug)]
        pub struct U48;
        #[derive(Clone, Copy, Debug)]
        pub struct U64;
    }
}

pub type FixedI128<T> = <T as FixedI128Sel>::Out;
pub trait FixedI128Sel {
    type Out;
}
impl FixedI128Sel for types::extra::U48 {
    type Out = types::I80F48;
}
impl FixedI128Sel for types::extra::U64 {
    type Out = types::I64F64;
}

pub mod prelude {
    pub use crate::traits::{FromFixed, LossyFrom, LossyInto, ToFixed};
}
