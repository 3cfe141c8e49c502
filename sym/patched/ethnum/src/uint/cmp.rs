//! Module with comparison implementations for `U256`.
//!
//! `PartialEq` and `PartialOrd` implementations for `u128` are also provided
//! to allow notation such as:
//!
//! ```
//! # use ethnum::U256;
//!
//! assert_eq!(U256::new(42), 42);
//! assert!(U256::ONE > 0 && U256::ZERO == 0);
//! ```

use crate::uint::U256;
use core::cmp::Ordering;

impl Ord for U256 {
    #[inline]
    fn cmp(&self, other: &Self) -> Ordering {
        crate::intrinsics::sym::cmp(self, other) // VERIF PATCH
    }
}

// VERIF PATCH: equality and order through the symbolic layer.
impl PartialEq for U256 {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        crate::intrinsics::sym::eq(self, other)
    }
}
impl PartialOrd for U256 {
    #[inline]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
    #[inline]
    fn lt(&self, other: &Self) -> bool {
        crate::intrinsics::sym::lt(self, other)
    }
    #[inline]
    fn le(&self, other: &Self) -> bool {
        crate::intrinsics::sym::le(self, other)
    }
    #[inline]
    fn gt(&self, other: &Self) -> bool {
        crate::intrinsics::sym::lt(other, self)
    }
    #[inline]
    fn ge(&self, other: &Self) -> bool {
        crate::intrinsics::sym::le(other, self)
    }
}

impl_cmp! {
    impl Cmp for U256 (u128) nopo;
}

#[cfg(test)]
mod tests {
    use super::*;
    use core::cmp::Ordering;

    #[test]
    fn cmp() {
        // 1e38
        let x = U256::from_words(0, 100000000000000000000000000000000000000);
        // 1e48
        let y = U256::from_words(2938735877, 18960114910927365649471927446130393088);
        assert!(x < y);
        assert_eq!(x.cmp(&y), Ordering::Less);
        assert!(y > x);
        assert_eq!(y.cmp(&x), Ordering::Greater);

        let x = U256::new(100);
        let y = U256::new(100);
        assert!(x <= y);
        assert_eq!(x.cmp(&y), Ordering::Equal);
    }
}

impl core::marker::StructuralPartialEq for U256 {}
