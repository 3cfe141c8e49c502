//! VERIF PATCH: symbolic layer over the unsigned intrinsics. Without tokens these are the originals.
use crate::uint::U256;
use core::mem::MaybeUninit;
use symx::{Cond, Tid};

#[inline]
fn tok(a: &U256) -> Option<Tid> {
    let (hi, lo) = a.into_words();
    symx::decode_words(hi, lo)
}
fn term(a: &U256) -> Tid {
    let (hi, lo) = a.into_words();
    symx::term_words(hi, lo)
}
fn val(t: Tid) -> U256 {
    let (hi, lo) = symx::token_words(t);
    U256::from_words(hi, lo)
}
#[inline]
pub fn any_tok(a: &U256, b: &U256) -> bool {
    symx::enabled() && (tok(a).is_some() || tok(b).is_some())
}
pub fn check_bits(w: [(u128, u128); 2]) {
    for (hi, lo) in w {
        if symx::decode_words(hi, lo).is_some() {
            symx::undecided("unsupported bitwise operation on a symbolic u256");
        }
    }
}
fn wrap(t: Tid) -> (U256, bool) {
    let m = symx::pow2(256);
    if symx::branch(Cond::Lt(t, m)) {
        (val(t), false)
    } else {
        (val(symx::modulo(t, m)), true)
    }
}
fn s_add(a: &U256, b: &U256) -> (U256, bool) {
    wrap(symx::add(term(a), term(b)))
}
fn s_sub(a: &U256, b: &U256) -> (U256, bool) {
    let (ta, tb) = (term(a), term(b));
    if symx::branch(Cond::Le(tb, ta)) {
        (val(symx::sub(ta, tb)), false)
    } else {
        (val(symx::add(symx::sub(ta, tb), symx::pow2(256))), true)
    }
}
fn s_mul(a: &U256, b: &U256) -> (U256, bool) {
    wrap(symx::mul(term(a), term(b)))
}
fn s_shl(a: &U256, n: u32) -> U256 {
    wrap(symx::mul(term(a), symx::pow2(n as usize))).0
}
fn s_shr(a: &U256, n: u32) -> U256 {
    val(symx::div(term(a), symx::pow2(n as usize)))
}

macro_rules! bin {
    ($two:ident, $three:ident, $sym:expr) => {
        pub fn $two(r: &mut U256, a: &U256) {
            if any_tok(r, a) {
                *r = $sym(&*r, a);
            } else {
                super::$two(r, a)
            }
        }
        pub fn $three(r: &mut MaybeUninit<U256>, a: &U256, b: &U256) {
            if any_tok(a, b) {
                r.write($sym(a, b));
            } else {
                super::$three(r, a, b)
            }
        }
    };
}
bin!(add2, add3, |a: &U256, b: &U256| s_add(a, b).0);
bin!(sub2, sub3, |a: &U256, b: &U256| s_sub(a, b).0);
bin!(mul2, mul3, |a: &U256, b: &U256| s_mul(a, b).0);
bin!(udiv2, udiv3, |a: &U256, b: &U256| val(symx::div(term(a), term(b))));
bin!(urem2, urem3, |a: &U256, b: &U256| val(symx::modulo(term(a), term(b))));

macro_rules! carry {
    ($f:ident, $sym:ident) => {
        pub fn $f(r: &mut MaybeUninit<U256>, a: &U256, b: &U256) -> bool {
            if any_tok(a, b) {
                let (v, o) = $sym(a, b);
                r.write(v);
                o
            } else {
                super::$f(r, a, b)
            }
        }
    };
}
carry!(uaddc, s_add);
carry!(usubc, s_sub);
carry!(umulc, s_mul);

macro_rules! shift {
    ($two:ident, $three:ident, $sym:ident) => {
        pub fn $two(r: &mut U256, n: u32) {
            if tok(r).is_some() {
                *r = $sym(&*r, n);
            } else {
                super::$two(r, n)
            }
        }
        pub fn $three(r: &mut MaybeUninit<U256>, a: &U256, n: u32) {
            if tok(a).is_some() {
                r.write($sym(a, n));
            } else {
                super::$three(r, a, n)
            }
        }
    };
}
shift!(shl2, shl3, s_shl);
shift!(shr2, shr3, s_shr);

/// A symbolic value keeps its full 32-byte token form (serialization of tokens is uninterpreted).
pub fn ctlz(a: &U256) -> u32 {
    if tok(a).is_some() {
        0
    } else {
        super::ctlz(a)
    }
}
pub fn cttz(a: &U256) -> u32 {
    if tok(a).is_some() {
        symx::undecided("trailing_zeros of a symbolic u256")
    }
    super::cttz(a)
}

pub fn eq(a: &U256, b: &U256) -> bool {
    if any_tok(a, b) {
        symx::branch(Cond::Eq(term(a), term(b)))
    } else {
        a.0 == b.0
    }
}
pub fn cmp(a: &U256, b: &U256) -> core::cmp::Ordering {
    use core::cmp::Ordering::*;
    if any_tok(a, b) {
        let (ta, tb) = (term(a), term(b));
        if symx::branch(Cond::Lt(ta, tb)) {
            Less
        } else if symx::branch(Cond::Eq(ta, tb)) {
            Equal
        } else {
            Greater
        }
    } else {
        a.into_words().cmp(&b.into_words())
    }
}
pub fn lt(a: &U256, b: &U256) -> bool {
    if any_tok(a, b) {
        symx::branch(Cond::Lt(term(a), term(b)))
    } else {
        a.into_words() < b.into_words()
    }
}
pub fn le(a: &U256, b: &U256) -> bool {
    if any_tok(a, b) {
        symx::branch(Cond::Le(term(a), term(b)))
    } else {
        a.into_words() <= b.into_words()
    }
}
fn low(a: U256, bits: usize) -> Option<Tid> {
    let t = tok(&a)?;
    let m = symx::pow2(bits);
    Some(if symx::branch(Cond::Lt(t, m)) { t } else { symx::modulo(t, m) })
}
pub fn as_u128(a: U256) -> u128 {
    match low(a, 128) {
        Some(t) => symx::token128(t),
        None => a.into_words().1,
    }
}
pub fn as_u64(a: U256) -> u64 {
    match low(a, 64) {
        Some(t) => symx::token64(t),
        None => a.into_words().1 as u64,
    }
}
pub fn as_u32(a: U256) -> u32 {
    match low(a, 32) {
        Some(t) => symx::token32(t),
        None => a.into_words().1 as u32,
    }
}
pub fn as_small(a: U256) -> u128 {
    if let Some(t) = tok(&a) {
        return u128::from_be_bytes(symx::concretize(t)[16..].try_into().unwrap());
    }
    a.into_words().1
}
pub fn check_words(a: &U256) {
    if tok(a).is_some() {
        symx::undecided("low()/high() of a symbolic u256")
    }
}
