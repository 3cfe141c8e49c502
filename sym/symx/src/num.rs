//! Decimal <-> big-endian conversions (no dependency on a bignum crate).
pub fn be_to_dec(be: &[u8]) -> String {
    let mut digits: Vec<u32> = vec![0]; // base 1e9, little endian
    for &b in be {
        let mut carry = b as u64;
        for d in digits.iter_mut() {
            let v = (*d as u64) * 256 + carry;
            *d = (v % 1_000_000_000) as u32;
            carry = v / 1_000_000_000;
        }
        while carry > 0 {
            digits.push((carry % 1_000_000_000) as u32);
            carry /= 1_000_000_000;
        }
    }
    let mut s = digits.last().unwrap().to_string();
    for d in digits.iter().rev().skip(1) {
        s.push_str(&format!("{d:09}"));
    }
    s
}

pub fn dec_to_be(dec: &str, min_len: usize) -> Vec<u8> {
    let mut out: Vec<u8> = vec![0]; // little endian
    for c in dec.bytes() {
        let mut carry = (c - b'0') as u32;
        for b in out.iter_mut() {
            let v = (*b as u32) * 10 + carry;
            *b = v as u8;
            carry = v >> 8;
        }
        while carry > 0 {
            out.push(carry as u8);
            carry >>= 8;
        }
    }
    while out.len() > 1 && *out.last().unwrap() == 0 {
        out.pop();
    }
    while out.len() < min_len {
        out.push(0);
    }
    out.reverse();
    out
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn roundtrip() {
        for s in ["0", "1", "255", "256", "115792089237316195423570985008687907853269984665640564039457584007913129639936"] {
            assert_eq!(be_to_dec(&dec_to_be(s, 32)), s);
        }
    }
}
