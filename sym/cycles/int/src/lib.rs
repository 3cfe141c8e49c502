//! A stand-in for the primitive `u128` whose values may be solver terms (they live in a 256-bit word).
#![allow(non_camel_case_types)]
use ethnum::U256;
use std::cmp::Ordering;
use std::ops::*;
type Prim = core::primitive::u128;

#[derive(Clone, Copy, Default)]
pub struct u128(U256);

impl u128 {
    pub const MIN: u128 = u128(U256::ZERO);
    pub const MAX: u128 = u128(U256::new(Prim::MAX));
    pub const BITS: u32 = 128;
    pub const fn lit(x: Prim) -> u128 {
        u128(U256::new(x))
    }
    pub fn from_word(w: U256) -> u128 {
        u128(w)
    }
    pub fn word(self) -> U256 {
        self.0
    }
    fn fit(w: U256) -> Option<u128> {
        if w <= Self::MAX.0 {
            Some(u128(w))
        } else {
            None
        }
    }
    fn wrap(w: U256) -> u128 {
        u128(w % (U256::ONE << 128u32))
    }
    pub fn checked_add(self, o: impl Into<u128>) -> Option<u128> {
        Self::fit(self.0 + o.into().0)
    }
    pub fn checked_sub(self, o: impl Into<u128>) -> Option<u128> {
        let o = o.into();
        if o.0 <= self.0 {
            Some(u128(self.0 - o.0))
        } else {
            None
        }
    }
    pub fn checked_mul(self, o: impl Into<u128>) -> Option<u128> {
        Self::fit(self.0 * o.into().0)
    }
    pub fn checked_div(self, o: impl Into<u128>) -> Option<u128> {
        let o = o.into();
        if o.0 == U256::ZERO {
            None
        } else {
            Some(u128(self.0 / o.0))
        }
    }
    pub fn checked_shl(self, n: u32) -> Option<u128> {
        if n < 128 {
            Some(Self::wrap(self.0 << n))
        } else {
            None
        }
    }
    pub fn saturating_add(self, o: impl Into<u128>) -> u128 {
        self.checked_add(o).unwrap_or(Self::MAX)
    }
    pub fn saturating_sub(self, o: impl Into<u128>) -> u128 {
        self.checked_sub(o).unwrap_or(Self::MIN)
    }
    pub fn saturating_mul(self, o: impl Into<u128>) -> u128 {
        self.checked_mul(o).unwrap_or(Self::MAX)
    }
    pub fn saturating_pow(self, e: u32) -> u128 {
        (0..e).fold(u128::lit(1), |a, _| a.saturating_mul(self))
    }
    pub fn wrapping_add(self, o: impl Into<u128>) -> u128 {
        Self::wrap(self.0 + o.into().0)
    }
    pub fn wrapping_mul(self, o: impl Into<u128>) -> u128 {
        Self::wrap(self.0 * o.into().0)
    }
    pub fn overflowing_mul(self, o: impl Into<u128>) -> (u128, bool) {
        let w = self.0 * o.into().0;
        (Self::wrap(w), w > Self::MAX.0)
    }
    pub fn overflowing_add(self, o: impl Into<u128>) -> (u128, bool) {
        let w = self.0 + o.into().0;
        (Self::wrap(w), w > Self::MAX.0)
    }
    pub fn abs_diff(self, o: impl Into<u128>) -> u128 {
        let o = o.into();
        if self.0 < o.0 {
            u128(o.0 - self.0)
        } else {
            u128(self.0 - o.0)
        }
    }
}
impl PartialEq for u128 {
    fn eq(&self, o: &u128) -> bool {
        self.0 == o.0
    }
}
impl Eq for u128 {}
impl PartialOrd for u128 {
    fn partial_cmp(&self, o: &u128) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for u128 {
    fn cmp(&self, o: &u128) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for u128 {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
macro_rules! from {
    ($($t:ty),*) => { $(
        impl From<$t> for u128 {
            fn from(x: $t) -> u128 {
                u128::lit(x as Prim)
            }
        }
        impl PartialEq<$t> for u128 {
            fn eq(&self, o: &$t) -> bool {
                *self == u128::from(*o)
            }
        }
        impl PartialOrd<$t> for u128 {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                self.partial_cmp(&u128::from(*o))
            }
        }
    )* };
}
from!(i32, u8, u16, u32, u64, usize, Prim);
macro_rules! op {
    ($($tr:ident $f:ident $as:ident $fa:ident $ch:ident),*) => { $(
        impl<T: Into<u128>> $tr<T> for u128 {
            type Output = u128;
            fn $f(self, o: T) -> u128 {
                self.$ch(o).expect("attempt to compute with overflow")
            }
        }
        impl<T: Into<u128>> $as<T> for u128 {
            fn $fa(&mut self, o: T) {
                *self = self.$ch(o).expect("attempt to compute with overflow")
            }
        }
        impl $tr<u128> for i32 {
            type Output = u128;
            fn $f(self, o: u128) -> u128 {
                u128::from(self).$ch(o).expect("attempt to compute with overflow")
            }
        }
    )* };
}
op!(Add add AddAssign add_assign checked_add, Sub sub SubAssign sub_assign checked_sub, Mul mul MulAssign mul_assign checked_mul, Div div DivAssign div_assign checked_div);
impl Shl<i32> for u128 {
    type Output = u128;
    fn shl(self, n: i32) -> u128 {
        u128::wrap(self.0 << n as u32)
    }
}
impl ShlAssign<i32> for u128 {
    fn shl_assign(&mut self, n: i32) {
        *self = *self << n
    }
}
impl std::iter::Sum for u128 {
    fn sum<I: Iterator<Item = u128>>(i: I) -> u128 {
        i.fold(u128::MIN, |a, b| a + b)
    }
}
impl std::fmt::Debug for u128 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for u128 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl candid::CandidType for u128 {
    fn _ty() -> candid::types::Type {
        candid::types::TypeInner::Nat.into()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, _: S) -> Result<(), S::Error> {
        unreachable!("calls are not encoded here")
    }
}
impl<'de> serde::Deserialize<'de> for u128 {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<u128, D::Error> {
        unreachable!("calls are not encoded here")
    }
}
