//! VERIF PATCH: symbolic layer. A BigUint whose value is a symx token denotes an unbounded integer term.
use super::BigUint;
use alloc::vec::Vec;
use symx::{Cond, Tid};

#[derive(Clone, Copy)]
pub(crate) enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

fn words(a: &BigUint) -> Option<(u128, u128)> {
    if a.data.len() > 4 {
        return None;
    }
    let d = |i: usize| a.data.get(i).copied().unwrap_or(0) as u128;
    Some(((d(3) << 64) | d(2), (d(1) << 64) | d(0)))
}
#[inline]
pub(crate) fn tok(a: &BigUint) -> Option<Tid> {
    if !symx::enabled() {
        return None;
    }
    let (hi, lo) = words(a)?;
    symx::decode_words(hi, lo)
}
fn term(a: &BigUint) -> Tid {
    match tok(a) {
        Some(t) => t,
        None => symx::konst(&symx::raw(|| a.to_bytes_be())),
    }
}
fn val(t: Tid) -> BigUint {
    let (hi, lo) = symx::token_words(t);
    BigUint { data: alloc::vec![lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64] }
}
fn on(a: &BigUint, b: &BigUint) -> bool {
    symx::enabled() && (tok(a).is_some() || tok(b).is_some())
}
/// Some(result) when one operand is symbolic.
pub(crate) fn bin(op: Op, a: &BigUint, b: &BigUint) -> Option<BigUint> {
    if !on(a, b) {
        return None;
    }
    let (x, y) = (term(a), term(b));
    Some(val(match op {
        Op::Add => symx::add(x, y),
        Op::Sub => {
            if !symx::branch(Cond::Le(y, x)) {
                panic!("Cannot subtract b from a because b is larger than a.");
            }
            symx::sub(x, y)
        }
        Op::Mul => symx::mul(x, y),
        Op::Div | Op::Rem => {
            if symx::branch(Cond::Eq(y, symx::konst_u128(0))) {
                panic!("attempt to divide by zero");
            }
            if let Op::Div = op {
                symx::div(x, y)
            } else {
                symx::modulo(x, y)
            }
        }
    }))
}
pub(crate) fn bin_scalar(op: Op, a: &BigUint, b: u128) -> Option<BigUint> {
    if !symx::enabled() {
        return None;
    }
    bin(op, a, &BigUint::from(b))
}
pub(crate) fn eq(a: &BigUint, b: &BigUint) -> Option<bool> {
    if !on(a, b) {
        return None;
    }
    Some(symx::branch(Cond::Eq(term(a), term(b))))
}
pub(crate) fn cmp(a: &BigUint, b: &BigUint) -> Option<core::cmp::Ordering> {
    use core::cmp::Ordering::*;
    if !on(a, b) {
        return None;
    }
    let (x, y) = (term(a), term(b));
    Some(if symx::branch(Cond::Lt(x, y)) {
        Less
    } else if symx::branch(Cond::Eq(x, y)) {
        Equal
    } else {
        Greater
    })
}
pub(crate) fn is_zero(a: &BigUint) -> Option<bool> {
    tok(a).map(|t| symx::branch(Cond::Eq(t, symx::konst_u128(0))))
}
/// Some(Some(t)) if symbolic and < 2^bits, Some(None) if symbolic and larger, None if concrete.
pub(crate) fn fits(a: &BigUint, bits: usize) -> Option<Option<Tid>> {
    tok(a).map(|t| if symx::branch(Cond::Lt(t, symx::pow2(bits))) { Some(t) } else { None })
}
/// Little-endian bytes of a symbolic value: a 32-byte token, or 33 bytes if it does not fit 256 bits.
pub(crate) fn bytes_le(a: &BigUint) -> Option<Vec<u8>> {
    fits(a, 256).map(|f| match f {
        Some(t) => {
            let mut v = symx::token256(t).to_vec();
            v.reverse();
            v
        }
        None => alloc::vec![0xff; 33],
    })
}
pub(crate) fn unsupported(a: &BigUint, what: &str) {
    if tok(a).is_some() {
        symx::undecided(what)
    }
}
