// Executable specification vocabulary of the bondrewd contracts.  Written from the documented format only.
//
// Where a field's bits live is decided by the layout model (vc/layouts.py), which writes the `get`/`put`
// of every layout as straight-line code; this file says what the bits of a field *mean* for each type.
#[inline(always)]
pub fn ones(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}
/// Values the obligations quantify over.
pub trait Val: Sized {
    /// number of input bytes that describe a value
    const SZ: usize;
    /// the value described by `i[off..off + SZ]`; None if these bytes describe none
    fn any(i: &[u8], off: usize) -> Option<Self>;
    /// equality as the properties mean it (floats by bit pattern)
    fn same(&self, o: &Self) -> bool;
    /// equality of everything an encoding stores
    #[inline(always)]
    fn kept(&self, o: &Self) -> bool {
        self.same(o)
    }
}
/// A primitive field value as the wire format sees it.
pub trait Wire: Val {
    /// the value's bits (two's complement / IEEE / scalar value), in the low bits
    fn raw(&self) -> u128;
    /// what a field of `len` bits holding `raw` decodes to
    fn dec(raw: u128, len: usize) -> Self;
    /// the value a field of `len` bits can hold that agrees with `self` on the low bits, if there is one
    #[inline(always)]
    fn fit(self, len: usize) -> Option<Self> {
        Some(Self::dec(self.raw() & ones(len), len))
    }
}
macro_rules! wire_uint {
    ($($t:ty),*) => {$(
        impl Val for $t {
            const SZ: usize = core::mem::size_of::<$t>();
            #[inline(always)]
            fn any(i: &[u8], off: usize) -> Option<Self> {
                let mut b = [0u8; core::mem::size_of::<$t>()];
                let mut k = 0;
                while k < b.len() {
                    b[k] = i[off + k];
                    k += 1;
                }
                Some(<$t>::from_le_bytes(b))
            }
            #[inline(always)]
            fn same(&self, o: &Self) -> bool { *self == *o }
        }
        impl Wire for $t {
            #[inline(always)]
            fn raw(&self) -> u128 { *self as u128 }
            #[inline(always)]
            fn dec(raw: u128, _len: usize) -> Self { raw as $t }
        }
    )*};
}
macro_rules! wire_int {
    ($($t:ty as $u:ty),*) => {$(
        impl Val for $t {
            const SZ: usize = core::mem::size_of::<$t>();
            #[inline(always)]
            fn any(i: &[u8], off: usize) -> Option<Self> {
                Some(<$u as Val>::any(i, off)? as $t)
            }
            #[inline(always)]
            fn same(&self, o: &Self) -> bool { *self == *o }
        }
        impl Wire for $t {
            #[inline(always)]
            fn raw(&self) -> u128 { *self as $u as u128 }
            #[inline(always)]
            fn dec(raw: u128, len: usize) -> Self {
                (((raw << (128 - len)) as i128) >> (128 - len)) as $t
            }
        }
    )*};
}
wire_uint!(u8, u16, u32, u64, u128);
wire_int!(i8 as u8, i16 as u16, i32 as u32, i64 as u64, i128 as u128);
impl Val for bool {
    const SZ: usize = 1;
    #[inline(always)]
    fn any(i: &[u8], off: usize) -> Option<Self> {
        Some(i[off] & 1 == 1)
    }
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
}
impl Wire for bool {
    #[inline(always)]
    fn raw(&self) -> u128 {
        *self as u128
    }
    #[inline(always)]
    fn dec(raw: u128, _len: usize) -> Self {
        raw != 0
    }
}
macro_rules! wire_float {
    ($($t:ty as $u:ty),*) => {$(
        impl Val for $t {
            const SZ: usize = core::mem::size_of::<$t>();
            #[inline(always)]
            fn any(i: &[u8], off: usize) -> Option<Self> {
                Some(<$t>::from_bits(<$u as Val>::any(i, off)?))
            }
            #[inline(always)]
            fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
        }
        impl Wire for $t {
            #[inline(always)]
            fn raw(&self) -> u128 { self.to_bits() as u128 }
            #[inline(always)]
            fn dec(raw: u128, _len: usize) -> Self { <$t>::from_bits(raw as $u) }
        }
    )*};
}
wire_float!(f32 as u32, f64 as u64);
impl Val for char {
    const SZ: usize = 4;
    #[inline(always)]
    fn any(i: &[u8], off: usize) -> Option<Self> {
        char::from_u32(<u32 as Val>::any(i, off)?)
    }
    #[inline(always)]
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
}
impl Wire for char {
    #[inline(always)]
    fn raw(&self) -> u128 {
        *self as u128
    }
    #[inline(always)]
    fn dec(raw: u128, _len: usize) -> Self {
        match char::from_u32(raw as u32) {
            Some(c) => c,
            None => char::REPLACEMENT_CHARACTER,
        }
    }
    #[inline(always)]
    fn fit(self, len: usize) -> Option<Self> {
        if (self as u128) & !ones(len) == 0 {
            Some(self)
        } else {
            None
        }
    }
}
macro_rules! val_array {
    ($($n:literal: $($k:literal)*),*) => {$(
        impl<T: Val> Val for [T; $n] {
            const SZ: usize = $n * T::SZ;
            #[inline(always)]
            fn any(i: &[u8], off: usize) -> Option<Self> {
                Some([$(T::any(i, off + $k * T::SZ)?),*])
            }
            #[inline(always)]
            fn same(&self, o: &Self) -> bool {
                true $(&& self[$k].same(&o[$k]))*
            }
            #[inline(always)]
            fn kept(&self, o: &Self) -> bool {
                true $(&& self[$k].kept(&o[$k]))*
            }
        }
    )*};
}
val_array!(
    1: 0,
    2: 0 1,
    3: 0 1 2,
    4: 0 1 2 3,
    5: 0 1 2 3 4,
    6: 0 1 2 3 4 5,
    7: 0 1 2 3 4 5 6,
    8: 0 1 2 3 4 5 6 7,
    9: 0 1 2 3 4 5 6 7 8,
    10: 0 1 2 3 4 5 6 7 8 9,
    11: 0 1 2 3 4 5 6 7 8 9 10,
    12: 0 1 2 3 4 5 6 7 8 9 10 11,
    13: 0 1 2 3 4 5 6 7 8 9 10 11 12,
    14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13,
    15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14,
    16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15,
    17: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16,
    18: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17,
    19: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18,
    20: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19,
    24: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23,
    32: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31,
    33: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
/// the N bytes at i[off..]
#[inline(always)]
pub fn bytes<const N: usize>(i: &[u8], off: usize) -> [u8; N] {
    let mut b = [0u8; N];
    let mut k = 0;
    while k < N {
        b[k] = i[off + k];
        k += 1;
    }
    b
}
#[inline(always)]
pub fn eqb<const N: usize>(a: &[u8; N], b: &[u8; N]) -> bool {
    let mut d = 0u8;
    let mut k = 0;
    while k < N {
        d |= a[k] ^ b[k];
        k += 1;
    }
    d == 0
}
#[inline(always)]
pub fn hexd(n: u8, upper: bool) -> u8 {
    if n < 10 {
        48 + n
    } else if upper {
        55 + n
    } else {
        87 + n
    }
}
#[inline(always)]
pub fn is_hex(c: u8) -> bool {
    (c >= 48 && c <= 57) | (c >= 65 && c <= 70) | (c >= 97 && c <= 102)
}
/// value of a hex digit (anything for other bytes)
#[inline(always)]
pub fn unhex(c: u8) -> u8 {
    if c <= 57 {
        c.wrapping_sub(48)
    } else if c <= 70 {
        c.wrapping_sub(55)
    } else {
        c.wrapping_sub(87)
    }
}

// ---- buffers of any length: `m` known bytes and a length given by 8 input bytes.
// In the verified build the buffer's address and length are all the code gets; run natively it is a real buffer.
#[inline(always)]
pub fn far_len(i: &[u8], m: usize) -> Option<usize> {
    let len = <u64 as Val>::any(i, m)? as usize;
    if len <= m || len >= 1 << 62 {
        return None;
    }
    if cfg!(vc_ir) || len < m + 100_000 {
        Some(len)
    } else {
        Some(m + 1 + len % 700)
    }
}
/// any length at all
#[inline(always)]
pub fn any_len(i: &[u8], m: usize) -> Option<usize> {
    let len = <u64 as Val>::any(i, m)? as usize;
    if len >= 1 << 62 {
        return None;
    }
    if cfg!(vc_ir) || len < m + 100_000 {
        Some(len)
    } else {
        Some(len % (2 * m + 3))
    }
}
#[cfg(vc_ir)]
pub mod far {
    #[inline(always)]
    pub fn slice(i: &[u8], _m: usize, len: usize) -> &[u8] {
        unsafe { core::slice::from_raw_parts(i.as_ptr(), len) }
    }
    #[inline(always)]
    pub fn slice_mut(i: &mut [u8], len: usize) -> &mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(i.as_mut_ptr(), len) }
    }
    #[inline(always)]
    pub fn vec(i: &mut [u8], len: usize) -> Vec<u8> {
        unsafe { Vec::from_raw_parts(i.as_mut_ptr(), len, len) }
    }
    /// nothing to do: what was written is already in the known bytes (and a write anywhere else fails the obligation)
    #[inline(always)]
    pub fn back(_i: &mut [u8], _d: *const u8, _len: usize) -> bool {
        true
    }
    #[inline(always)]
    pub fn tail(_v: &[u8], _from: usize, _gone: usize) -> bool {
        true
    }
}
#[cfg(not(vc_ir))]
pub mod far {
    fn pat(k: usize) -> u8 {
        (k as u8).wrapping_mul(37) ^ 0x5a
    }
    fn buf(i: &[u8], len: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..len).map(pat).collect();
        let m = i.len().min(len);
        v[..m].copy_from_slice(&i[..m]);
        v
    }
    pub fn slice(i: &[u8], m: usize, len: usize) -> &'static [u8] {
        Box::leak(buf(&i[..m], len).into_boxed_slice())
    }
    pub fn slice_mut(i: &mut [u8], len: usize) -> &'static mut [u8] {
        Box::leak(buf(i, len).into_boxed_slice())
    }
    pub fn vec(i: &mut [u8], len: usize) -> Vec<u8> {
        buf(i, len)
    }
    /// copies the known bytes back; true if the others are as they were
    pub fn back(i: &mut [u8], d: *const u8, len: usize) -> bool {
        let d = unsafe { core::slice::from_raw_parts(d, len) };
        i.copy_from_slice(&d[..i.len()]);
        (i.len()..len).all(|k| d[k] == pat(k))
    }
    /// v holds the bytes that were `gone` places further on, from place `from`
    pub fn tail(v: &[u8], from: usize, gone: usize) -> bool {
        (from..v.len()).all(|k| v[k] == pat(k + gone))
    }
}
