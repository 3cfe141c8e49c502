//! Data layer: amounts, block ranges, two-key maps, the stored form of events and the public event history.
use crate::common::*;
use crate::minter_main::verif_main_probe as ep;
use candid::{Nat, Principal};
use evm_minter::deposit_logs::{EventSource, LedgerSubaccount, ReceivedErc20Event, ReceivedNativeEvent};
use evm_minter::endpoints::events as ce;
use evm_minter::endpoints::CandidBlockTag;
use evm_minter::erc20::{ERC20Token, ERC20TokenSymbol};
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::lifecycle::{InitArg, UpgradeArg};
use evm_minter::map::{DedupMultiKeyMap, MultiKeyMap, OccupiedKey};
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::{Hash, TransactionReceipt, TransactionStatus};
use evm_minter::state::audit::EventType;
use evm_minter::state::event::Event;
use evm_minter::state::transactions::{
    Erc20WithdrawalRequest, NativeWithdrawalRequest, Reimbursed, ReimbursementIndex, ReimbursementRequest, Subaccount,
};
use evm_minter::tx::{AccessList, AccessListItem, Eip1559Signature, Eip1559TransactionRequest, SignedEip1559TransactionRequest, StorageKey};
use evm_rpc_types::Nat256;
use ic_stable_structures::storable::Storable;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use serde_bytes::ByteBuf;
use std::cmp::Ordering;

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "amounts",
            props: &["P11"],
            tier: "quick",
            run: amounts,
            covers: &["overflow", "fits", "underflow", "div", "nat too large", "nat fits"],
            bounds: "two operands symbolic over the full 256-bit range (multiplication: second operand below 2^64; division: every divisor of {0,1,2,3,7,10,21000,65000,2^64-1} and symbolic 256-bit dividend); naturals below 2^300 for the conversions",
            functions: "CheckedAmountOf::{checked_add,checked_sub,checked_mul,checked_increment,checked_decrement,checked_div_ceil,checked_div_floor,div_by_two,change_units,cmp,eq,try_from(Nat),from_be_bytes,to_be_bytes}, conversions to and from Nat and Nat256, WeiPerGas::transaction_cost, Wei::into_wei_per_gas",
            workers: 4,
        },
        Harness {
            name: "ranges",
            props: &["P11"],
            tier: "quick",
            run: ranges,
            covers: &["chunked", "empty", "halves", "top", "joined"],
            bounds: "one block range with symbolic 256-bit ends (also empty, and reaching the largest block number), chunk size one of {1, 2, 3, 500, 65535} with at most 4 chunks, symbolic split point",
            functions: "BlockRangeInclusive::{new,partition_at_checked,partition_into_halves,join_with,into_chunks}, BlockRangeChunks::next",
            workers: 4,
        },
        Harness {
            name: "memos",
            props: &["P32"],
            tier: "quick",
            run: memos,
            covers: &["deposit", "refund of a transaction", "refund of a burn", "native burn", "gas fee burn", "token burn", "full length"],
            bounds: "one memo of each kind; log index symbolic over 64 bits, amount over 256 bits, burn indices at the boundaries of every encoded length, symbols of 1 to 20 characters",
            functions: "Memo::from for ReceivedDepositEvent, ReimbursementRequest and BurnMemo, minicbor encodings of Address, Hash, ERC20TokenSymbol and CheckedAmountOf (cbor::u256)",
            workers: 1,
        },
        Harness {
            name: "two_key_map",
            props: &["P15"],
            tier: "quick",
            run: two_key_map3,
            covers: &["inserted", "key taken", "alt taken", "removed", "drained", "order"],
            bounds: "three operations (insert, remove, drain below a threshold) with symbolic 256-bit primary keys, alternative keys and threshold, on both map types; every relative order of the keys",
            functions: "MultiKeyMap::{try_insert,get,get_mut,get_entry,get_alt,contains,contains_alt,iter,keys,alt_keys,remove_entry,drain,is_empty,from_iter}, DedupMultiKeyMap::{try_insert,get,get_alt,get_entry,get_entry_alt,contains_alt,alt_keys,iter}",
            workers: 8,
        },
        Harness {
            name: "two_key_map_4",
            props: &["P15"],
            tier: "thorough",
            run: two_key_map4,
            covers: &["inserted", "key taken", "alt taken", "removed", "drained", "order"],
            bounds: "as two_key_map, with four operations",
            functions: "as two_key_map",
            workers: 8,
        },
        Harness {
            name: "event_roundtrip",
            props: &["P12"],
            tier: "quick",
            run: event_roundtrip,
            covers: &["u32", "u64", "big", "id", "list"],
            bounds: "each of the 21 kinds of event, each numeric field in turn symbolic over its whole range (classes below 2^32, below 2^64, larger; larger values as opaque 32-byte strings), 3 shapes (optional fields present/absent, empty and long texts and byte strings, every enumeration value), all ten networks",
            functions: "Event::{to_bytes,from_bytes}, the CBOR codecs of EventType and all of its parts, cbor::{u256,nat,principal,id}",
            workers: 8,
        },
        Harness {
            name: "event_bytes",
            props: &["P12"],
            tier: "quick",
            run: event_bytes,
            covers: &["small", "large"],
            bounds: "every kind of event with all numeric fields at one byte-length boundary (0, 1, 23, 24, 0xff, 0x100, 2^8k-1, 2^8k, maximum) and the event time symbolic",
            functions: "Event::{to_bytes,from_bytes}, cbor::{u256,nat}",
            workers: 2,
        },
        Harness {
            name: "event_golden",
            props: &["P12"],
            tier: "quick",
            run: event_golden,
            covers: &["decoded"],
            bounds: "stored bytes written by the pinned version for every kind of event, 3 shapes, 3 size classes, with every numeric field replaced by a symbolic value of the class",
            functions: "Event::from_bytes and the CBOR decoders of all event parts",
            workers: 4,
        },
        Harness {
            name: "history",
            props: &["P27"],
            tier: "quick",
            run: history,
            covers: &["shown", "id"],
            bounds: "each of the 21 kinds of event recorded after the installation, each numeric field in turn symbolic (256 bits), 3 shapes, all ten networks",
            functions: "get_events, record_event, with_event_iter",
            workers: 8,
        },
        Harness {
            name: "history_pages",
            props: &["P27"],
            tier: "quick",
            run: history_pages,
            covers: &["full page", "short page", "empty page"],
            bounds: "histories of 1, 2, 100, 101 and 205 events with symbolic block numbers; every start in {0,1,99,100,101,total-1,total,total+1,2^63} and length in {0,1,2,99,100,101,2^63}",
            functions: "get_events, total_event_count, with_event_iter",
            workers: 4,
        },
    ]
}

// ------------------------------------------------------------------------------------------ P11

fn same<U>(x: Option<CheckedAmountOf<U>>, fits: bool, exact: impl FnOnce() -> BigUint) -> bool {
    match x {
        Some(v) => fits && big(v) == exact(),
        None => !fits,
    }
}
fn fits256(x: &BigUint) -> bool {
    *x <= max256()
}

fn amounts() {
    let a: Wei = amt("a", 256);
    let (x, op) = (big(a), choose("op", 11));
    match op {
        0 => {
            let b: Wei = amt("b", 256);
            let y = big(b);
            let r = a.checked_add(b);
            let f = fits256(&(&x + &y));
            verify!("P11", same(r, f, || &x + &y), "addition is not exact or does not report overflow");
            cover(if f { "fits" } else { "overflow" });
        }
        1 => {
            let b: Wei = amt("b", 256);
            let y = big(b);
            let r = a.checked_sub(b);
            let f = y <= x;
            verify!("P11", same(r, f, || &x - &y), "subtraction is not exact or does not report underflow");
            cover(if f { "fits" } else { "underflow" });
        }
        2 => {
            let f: ethnum::u256 = amt::<WeiTag>("factor", 64).into_inner();
            let y = big(CheckedAmountOf::<WeiTag>::from_be_bytes(f.to_be_bytes()));
            let r = a.checked_mul(f);
            let p = &x * &y;
            let ok = fits256(&p);
            verify!("P11", same(r, ok, || p.clone()), "multiplication is not exact or does not report overflow");
            cover(if ok { "fits" } else { "overflow" });
        }
        3 => {
            let r = a.checked_increment();
            let f = x < max256();
            verify!("P11", same(r, f, || &x + n(1)), "increment is wrong");
            let r = a.checked_decrement();
            let f = x > n(0);
            verify!("P11", same(r, f, || &x - n(1)), "decrement is wrong");
            verify!("P11", big(a.div_by_two()) == &x / n(2), "halving is wrong");
        }
        4 => {
            const D: [u64; 9] = [0, 1, 2, 3, 7, 10, 21_000, 65_000, u64::MAX];
            let d = D[choose("divisor", D.len())];
            let (fl, ce) = (a.checked_div_floor(d), a.checked_div_ceil(d));
            if d == 0 {
                verify!("P11", fl.is_none() && ce.is_none(), "division by zero is not refused");
            } else {
                cover("div");
                verify!("P11", same(fl, true, || &x / n(d)), "floor division is wrong");
                // ceil(x / d) is the smallest q with q * d >= x
                let ok = ce.is_some_and(|q| {
                    let q = big(q);
                    &q * n(d) >= x && (q == n(0) || (&q - n(1)) * n(d) < x)
                });
                verify!("P11", ok, "ceiling division is wrong");
            }
        }
        5 => {
            let b: Wei = amt("b", 256);
            let y = big(b);
            let want = if x < y {
                Ordering::Less
            } else if x == y {
                Ordering::Equal
            } else {
                Ordering::Greater
            };
            verify!("P11", a.cmp(&b) == want && a.partial_cmp(&b) == Some(want), "ordering is wrong");
            verify!("P11", (a == b) == (want == Ordering::Equal), "equality is wrong");
            verify!("P11", big(a.min(b)) == min_of(x.clone(), y.clone()) && big(a.max(b)) == max_of(x.clone(), y.clone()), "minimum or maximum is wrong");
        }
        6 => {
            let v = nat("nat", 300);
            let r = Wei::try_from(Nat(v.clone()));
            if v <= max256() {
                cover("nat fits");
                verify!("P11", r.is_ok_and(|w| big(w) == v), "a natural number is not converted to the same amount");
            } else {
                cover("nat too large");
                verify!("P11", r.is_err(), "a natural number beyond 256 bits is accepted as an amount");
            }
        }
        7 => {
            verify!("P11", Nat::from(a).0 == x, "the candid form of an amount differs");
            verify!("P11", big(Wei::from(Nat256::from(a))) == x, "the RPC form of an amount differs");
            verify!("P11", Nat::from(Nat256::from(a)).0 == x, "the RPC form of an amount denotes another number");
            verify!("P11", big(Wei::from_be_bytes(a.to_be_bytes())) == x, "the byte form of an amount differs");
            verify!("P11", big(a.change_units::<Erc20Tag>()) == x, "a change of units changes the number");
        }
        8 => {
            let p: WeiPerGas = amt("price", 256);
            const G: [u64; 5] = [0, 1, 21_000, 65_000, u64::MAX];
            let g = G[choose("gas", G.len())];
            let r = p.transaction_cost(GasAmount::from(g));
            let y = big(p) * n(g);
            let ok = fits256(&y);
            verify!("P11", same(r, ok, || y.clone()), "the cost of a transaction is not price times gas");
            let r = a.into_wei_per_gas(GasAmount::from(g));
            verify!("P11", same(r, g > 0, || &x / n(g)), "the price per gas is not the floor of the amount over the gas");
        }
        9 => {
            // the smallest and largest amounts and the primitive constructors
            verify!("P11", big(Wei::ZERO) == n(0) && big(Wei::ONE) == n(1) && big(Wei::TWO) == n(2) && big(Wei::MAX) == max256(), "a constant amount is wrong");
            verify!("P11", big(Wei::from(u64::MAX)) == n(u64::MAX) && big(Wei::from(u32::MAX)) == n(u32::MAX as u64) && big(Wei::from(255u8)) == n(255)
                && big(Wei::new(u128::MAX)) == BigUint::from(u128::MAX) && big(Wei::from(u128::MAX)) == BigUint::from(u128::MAX)
                && big(Wei::from_words(1, 2)) == (BigUint::from(1u8) << 128u32) + n(2), "a constructor of amounts is wrong");
        }
        _ => {
            // chains of operations: no wrap-around in the middle
            let (b, c): (Wei, Wei) = (amt("b", 256), amt("c", 256));
            let (y, z) = (big(b), big(c));
            let r = a.checked_add(b).and_then(|s| s.checked_sub(c));
            let f = fits256(&(&x + &y)) && z <= &x + &y;
            verify!("P11", same(r, f, || &x + &y - &z), "a sum and difference of three amounts is wrong");
        }
    }
}

fn ranges() {
    let (s, e): (BlockNumber, BlockNumber) = (amt("start", 256), amt("end", 256));
    let (x, y) = (big(s), big(e));
    let r = BlockRangeInclusive::new(s, e);
    let ends = |r: BlockRangeInclusive| {
        let (a, b) = r.into_inner();
        (big(a), big(b))
    };
    let empty = x > y;
    match choose("op", 4) {
        0 => {
            const C: [u16; 5] = [1, 2, 3, 500, u16::MAX];
            let size = C[choose("chunk", C.len())];
            let k = n(size as u64);
            if empty {
                cover("empty");
                verify!("P11", r.into_chunks(size).next().is_none(), "an empty range has chunks");
                return;
            }
            assume(&y - &x < &k * n(4));
            let v: Vec<_> = r.into_chunks(size).take(6).map(ends).collect();
            cover("chunked");
            if y == max256() {
                cover("top");
            }
            // at the very top of the number range one chunk may be cut in two
            verify!("P11", !v.is_empty() && v.len() <= 5, "too many chunks, or none");
            verify!("P11", v[0].0 == x && v[v.len() - 1].1 == y, "the chunks do not start and end with the range");
            verify!("P11", v.iter().all(|c| c.0 <= c.1 && &c.1 - &c.0 < k), "a chunk is empty or larger than asked for");
            verify!("P11", v.windows(2).all(|w| &w[0].1 + n(1) == w[1].0), "the chunks overlap or leave a gap");
        }
        1 => {
            let m: BlockNumber = amt("mid", 256);
            let z = big(m);
            assume(!empty);
            let (l, h) = r.partition_at_checked(m);
            let (l, h) = (l.map(ends), h.map(ends));
            let want = if z <= x {
                (None, Some((x.clone(), y.clone())))
            } else if z > y {
                (Some((x.clone(), y.clone())), None)
            } else {
                (Some((x.clone(), &z - n(1))), Some((z.clone(), y.clone())))
            };
            verify!("P11", l == want.0 && h == want.1, "a range is not split exactly at the given block");
        }
        2 => {
            assume(!empty);
            let (l, h) = r.partition_into_halves();
            let (l, h) = (l.map(ends), h.map(ends));
            match (l, h) {
                (Some(l), Some(h)) => {
                    cover("halves");
                    let exact = l.0 == x && h.1 == y && &l.1 + n(1) == h.0 && l.0 <= l.1 && h.0 <= h.1;
                    verify!("P11", exact, "the halves do not cover the range exactly once");
                    let (a, b) = (&l.1 - &l.0, &h.1 - &h.0);
                    verify!("P11", a == b || a == &b + n(1), "the halves are not equal up to one block");
                }
                (Some(l), None) => verify!("P11", x == y && l == (x.clone(), y.clone()), "a range with two blocks or more is not split"),
                _ => verify!("P11", false, "halving lost the range"),
            }
        }
        _ => {
            assume(!empty);
            let (a, b): (BlockNumber, BlockNumber) = (amt("start2", 256), amt("end2", 256));
            let (p, q) = (big(a), big(b));
            assume(p <= q);
            let j = ends(r.join_with(BlockRangeInclusive::new(a, b)));
            cover("joined");
            verify!("P11", j.0 == min_of(x.clone(), p) && j.1 == max_of(y.clone(), q), "the joined range does not span both ranges");
        }
    }
}

// ------------------------------------------------------------------------------------------ P15

type Key = Wei;
type Alt = BlockNumber;

fn two_key_map3() {
    two_key_map(3)
}
fn two_key_map4() {
    two_key_map(4)
}
fn two_key_map(steps: u32) {
    let dedup = flag("dedup");
    let mut m: MultiKeyMap<Key, Alt, u32> = MultiKeyMap::new();
    let mut d: DedupMultiKeyMap<Key, Alt, u32> = DedupMultiKeyMap::new();
    // the oracle: a plain list
    let mut list: Vec<(Key, Alt, u32)> = vec![];
    for i in 0..steps {
        let kind = if dedup || i < 2 { 0 } else { choose("op", 3) };
        match kind {
            0 => {
                let (k, a): (Key, Alt) = (amt("key", 256), amt("alt", 256));
                let alt_taken = list.iter().any(|x| x.1 == a);
                let key_taken = list.iter().any(|x| x.0 == k);
                let r = if dedup { d.try_insert(k, a, 10 + i) } else { m.try_insert(k, a, 10 + i) };
                match r {
                    Ok(()) => {
                        verify!("P15", !alt_taken && !key_taken, "an entry whose key is taken was inserted");
                        cover("inserted");
                        list.push((k, a, 10 + i));
                    }
                    Err(e) => {
                        verify!("P15", alt_taken || key_taken, "an entry with two new keys was refused");
                        verify!("P15", e.value == 10 + i, "the refused value is not handed back");
                        match e.occupied_key {
                            OccupiedKey::AltKey(x) => {
                                cover("alt taken");
                                verify!("P15", alt_taken && x == a, "the wrong key is reported as taken");
                            }
                            OccupiedKey::Key(x) => {
                                cover("key taken");
                                verify!("P15", key_taken && x == k, "the wrong key is reported as taken");
                            }
                        }
                    }
                }
            }
            1 => {
                let k: Key = amt("key", 256);
                let at = list.iter().position(|x| x.0 == k);
                let r = m.remove_entry(&k);
                match at {
                    Some(p) => {
                        cover("removed");
                        let want = list.remove(p);
                        verify!("P15", r == Some(want), "removal returns another entry");
                    }
                    None => verify!("P15", r.is_none(), "removal of a missing key returns an entry"),
                }
            }
            _ => {
                let t: Key = amt("threshold", 256);
                let got = m.drain(|k| *k <= t);
                let mut want: Vec<_> = list.iter().filter(|x| x.0 <= t).cloned().collect();
                want.sort_by(|p, q| p.0.cmp(&q.0));
                if !want.is_empty() {
                    cover("drained");
                }
                verify!("P15", got == want, "drain does not return exactly the matching entries in ascending order");
                list.retain(|x| !(x.0 <= t));
            }
        }
    }
    // the map is the list, whichever key is used
    let mut sorted = list.clone();
    sorted.sort_by(|p, q| p.0.cmp(&q.0));
    if sorted.len() >= 2 {
        cover("order");
    }
    if dedup {
        let it: Vec<_> = d.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
        verify!("P15", it == sorted, "iteration does not yield exactly the entries in ascending order of the primary key");
        for (k, a, v) in &list {
            verify!("P15", d.get(k) == Some(v) && d.get_alt(a) == Some(v), "an entry is not found by one of its keys");
            verify!("P15", d.get_entry(k) == Some((a, v)) && d.get_entry_alt(a) == Some((k, v)), "an entry is found with another key");
            verify!("P15", d.contains_alt(a), "an alternative key is not found");
        }
        verify!("P15", d.alt_keys().count() == list.len(), "the number of alternative keys differs");
    } else {
        let it: Vec<_> = m.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
        verify!("P15", it == sorted, "iteration does not yield exactly the entries in ascending order of the primary key");
        verify!("P15", m.is_empty() == list.is_empty() && m.alt_keys().count() == list.len(), "the size of the map differs");
        verify!("P15", m.keys().cloned().collect::<Vec<_>>() == sorted.iter().map(|x| x.0).collect::<Vec<_>>(), "the primary keys differ");
        for (k, a, v) in &list {
            verify!("P15", m.get(k) == Some(v) && m.get_alt(a) == Some(v) && m.get_entry(k) == Some((a, v)), "an entry is not found by one of its keys");
            verify!("P15", m.contains(k) && m.contains_alt(a), "a key is not found");
        }
        if let Some((k, a, _)) = list.first() {
            if let Some(v) = m.get_mut(k) {
                *v = 99;
            }
            verify!("P15", m.get(k) == Some(&99) && m.get_alt(a) == Some(&99), "a change through one key is not seen through the other");
        }
        let again: MultiKeyMap<Key, Alt, u32> = list.iter().cloned().collect();
        let it: Vec<_> = again.iter().map(|(k, a, v)| (*k, *a, *v)).collect();
        verify!("P15", it == sorted, "a map built from its entries differs");
    }
    // a key that is in no entry finds nothing
    let (k, a): (Key, Alt) = (amt("other_key", 256), amt("other_alt", 256));
    assume(list.iter().all(|x| x.0 != k && x.1 != a));
    let none = if dedup {
        d.get(&k).is_none() && d.get_alt(&a).is_none() && d.get_entry(&k).is_none() && d.get_entry_alt(&a).is_none() && !d.contains_alt(&a)
    } else {
        m.get(&k).is_none() && m.get_alt(&a).is_none() && m.get_entry(&k).is_none() && !m.contains(&k) && !m.contains_alt(&a)
    };
    verify!("P15", none, "a key that was never inserted finds an entry");
}

// ------------------------------------------------------------------------------------------ events

/// Supplies the values of an event's fields: the k-th numeric field gets `f(k, is it a 64-bit field)`.
pub struct Gen<'a> {
    pub f: &'a mut dyn FnMut(usize, bool) -> BigUint,
    /// 0: optional fields present, 1: absent and texts empty, 2: present with other values
    pub shape: usize,
    pub net: usize,
    k: usize,
    b: u8,
}
const NETS: [EvmNetwork; 10] = [
    EvmNetwork::Ethereum,
    EvmNetwork::Sepolia,
    EvmNetwork::ArbitrumOne,
    EvmNetwork::BSC,
    EvmNetwork::BSCTestnet,
    EvmNetwork::Polygon,
    EvmNetwork::Optimism,
    EvmNetwork::Base,
    EvmNetwork::Avalanche,
    EvmNetwork::Fantom,
];
const CHAIN_IDS: [u64; 10] = [1, 11155111, 42161, 56, 97, 137, 10, 8453, 43114, 250];
pub const KINDS: usize = 21;

impl<'a> Gen<'a> {
    pub fn new(f: &'a mut dyn FnMut(usize, bool) -> BigUint, shape: usize, net: usize) -> Self {
        Gen { f, shape, net, k: 0, b: 0x30 }
    }
    fn big(&mut self) -> BigUint {
        self.k += 1;
        (self.f)(self.k - 1, false)
    }
    fn amt<U>(&mut self) -> CheckedAmountOf<U> {
        to_amt(&self.big())
    }
    fn nat(&mut self) -> Nat {
        Nat(self.big())
    }
    /// A field stored as a 64-bit number.
    fn id(&mut self) -> u64 {
        self.k += 1;
        let v = (self.f)(self.k - 1, true);
        match v.to_u64() {
            Some(x) => x,
            None => {
                assume(false);
                0
            }
        }
    }
    fn byte(&mut self) -> u8 {
        self.b += 1;
        self.b
    }
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let b = self.byte();
        let mut v = [b; N];
        match self.shape {
            0 => v[0] = 0,
            1 => v[N - 1] = 0,
            _ => v[N / 2] = 0xff,
        }
        v
    }
    fn hash(&mut self) -> Hash {
        Hash(self.bytes())
    }
    fn addr(&mut self) -> Address {
        Address::new(self.bytes())
    }
    fn principal(&mut self) -> Principal {
        let b = self.byte();
        match self.shape {
            0 => Principal::from_slice(&[b; 29]),
            1 => Principal::from_slice(&[0, 0, 0, 0, 0, 0, 0, b, 1, 1]),
            _ => Principal::from_slice(&[b]),
        }
    }
    fn text(&mut self) -> String {
        let b = self.byte();
        match self.shape {
            0 => format!("text {b}"),
            1 => String::new(),
            _ => format!("{} é✓ {b}", "x".repeat(300)),
        }
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        (self.shape != 1).then(|| f(self))
    }
    fn subaccount(&mut self) -> Option<Subaccount> {
        self.opt(|g| Subaccount(g.bytes()))
    }
}
fn hexs(h: &Hash) -> String {
    format!("0x{}", hex::encode(h.0))
}
/// EIP-55 text of an address, computed independently of the code under test.
pub fn eip55(a: &Address) -> String {
    let low = hex::encode(a.as_ref());
    let d = ic_sha3::Keccak256::hash(low.as_bytes());
    let mut s = String::from("0x");
    for (i, c) in low.chars().enumerate() {
        let nib = (d[i / 2] >> (if i % 2 == 0 { 4 } else { 0 })) & 0xf;
        s.push(if nib >= 8 { c.to_ascii_uppercase() } else { c });
    }
    s
}
fn n64(x: u64) -> Nat {
    Nat::from(x)
}
fn source(g: &mut Gen) -> (EventSource, ce::EventSource) {
    let s = EventSource { transaction_hash: g.hash(), log_index: g.amt() };
    let c = ce::EventSource { transaction_hash: hexs(&s.transaction_hash), log_index: Nat(big(s.log_index)) };
    (s, c)
}
fn transaction(g: &mut Gen) -> (Eip1559TransactionRequest, ce::UnsignedTransaction) {
    let t = Eip1559TransactionRequest {
        chain_id: g.id(),
        nonce: g.amt(),
        max_priority_fee_per_gas: g.amt(),
        max_fee_per_gas: g.amt(),
        gas_limit: g.amt(),
        destination: g.addr(),
        amount: g.amt(),
        data: match g.shape {
            0 => (0..68u8).collect(),
            1 => vec![],
            _ => vec![0xfe; 300],
        },
        access_list: AccessList(match g.shape {
            2 => {
                cover("list");
                vec![
                    AccessListItem { address: g.addr(), storage_keys: vec![StorageKey(g.bytes()), StorageKey(g.bytes())] },
                    AccessListItem { address: g.addr(), storage_keys: vec![] },
                ]
            }
            _ => vec![],
        }),
    };
    let c = ce::UnsignedTransaction {
        chain_id: n64(t.chain_id),
        nonce: Nat(big(t.nonce)),
        max_priority_fee_per_gas: Nat(big(t.max_priority_fee_per_gas)),
        max_fee_per_gas: Nat(big(t.max_fee_per_gas)),
        gas_limit: Nat(big(t.gas_limit)),
        destination: eip55(&t.destination),
        value: Nat(big(t.amount)),
        data: ByteBuf::from(t.data.clone()),
        access_list: t
            .access_list
            .0
            .iter()
            .map(|i| ce::AccessListItem { address: eip55(&i.address), storage_keys: i.storage_keys.iter().map(|k| ByteBuf::from(k.0.to_vec())).collect() })
            .collect(),
    };
    (t, c)
}
fn reimbursed(g: &mut Gen) -> Reimbursed {
    Reimbursed {
        reimbursed_in_block: LedgerMintIndex::new(g.id()),
        burn_in_block: LedgerBurnIndex::new(g.id()),
        reimbursed_amount: g.amt(),
        transaction_hash: g.opt(|g| g.hash()),
    }
}
fn tag(shape: usize) -> CandidBlockTag {
    [CandidBlockTag::Latest, CandidBlockTag::Safe, CandidBlockTag::Finalized][shape].clone()
}

/// The i-th kind of event, and how the public history must show it.
pub fn sample(i: usize, g: &mut Gen) -> (EventType, ce::EventPayload) {
    use ce::EventPayload as EP;
    match i {
        0 => {
            let a = InitArg {
                evm_network: NETS[g.net],
                ecdsa_key_name: g.text(),
                helper_contract_address: g.opt(|g| g.text()),
                native_ledger_id: g.principal(),
                native_index_id: g.principal(),
                native_symbol: g.text(),
                block_height: tag(g.shape),
                native_minimum_withdrawal_amount: g.nat(),
                native_ledger_transfer_fee: g.nat(),
                next_transaction_nonce: g.nat(),
                last_scraped_block_number: g.nat(),
                min_max_priority_fee_per_gas: g.nat(),
                ledger_suite_manager_id: g.principal(),
                deposit_native_fee: g.nat(),
                withdrawal_native_fee: g.nat(),
            };
            (EventType::Init(a.clone()), EP::Init(a))
        }
        1 => {
            let a = UpgradeArg {
                next_transaction_nonce: g.opt(|g| g.nat()),
                native_minimum_withdrawal_amount: g.opt(|g| g.nat()),
                helper_contract_address: g.opt(|g| g.text()),
                block_height: g.opt(|g| tag(g.shape)),
                last_scraped_block_number: g.opt(|g| g.nat()),
                evm_rpc_id: g.opt(|g| g.principal()),
                native_ledger_transfer_fee: g.opt(|g| g.nat()),
                min_max_priority_fee_per_gas: g.opt(|g| g.nat()),
                deposit_native_fee: g.opt(|g| g.nat()),
                withdrawal_native_fee: g.opt(|g| g.nat()),
            };
            (EventType::Upgrade(a.clone()), EP::Upgrade(a))
        }
        2 => {
            let sub = g.opt(|g| {
                let v: CheckedAmountOf<WeiTag> = g.amt();
                assume(v != CheckedAmountOf::ZERO);
                v.to_be_bytes()
            });
            let e = ReceivedNativeEvent {
                transaction_hash: g.hash(),
                block_number: g.amt(),
                log_index: g.amt(),
                from_address: g.addr(),
                value: g.amt(),
                principal: g.principal(),
                subaccount: sub.and_then(LedgerSubaccount::from_bytes),
            };
            let c = EP::AcceptedDeposit {
                transaction_hash: hexs(&e.transaction_hash),
                block_number: Nat(big(e.block_number)),
                log_index: Nat(big(e.log_index)),
                from_address: eip55(&e.from_address),
                value: Nat(big(e.value)),
                principal: e.principal,
                subaccount: sub,
            };
            (EventType::AcceptedDeposit(e), c)
        }
        3 => {
            let sub = g.opt(|g| {
                let v: CheckedAmountOf<WeiTag> = g.amt();
                assume(v != CheckedAmountOf::ZERO);
                v.to_be_bytes()
            });
            let e = ReceivedErc20Event {
                transaction_hash: g.hash(),
                block_number: g.amt(),
                log_index: g.amt(),
                from_address: g.addr(),
                value: g.amt(),
                principal: g.principal(),
                erc20_contract_address: g.addr(),
                subaccount: sub.and_then(LedgerSubaccount::from_bytes),
            };
            let c = EP::AcceptedErc20Deposit {
                transaction_hash: hexs(&e.transaction_hash),
                block_number: Nat(big(e.block_number)),
                log_index: Nat(big(e.log_index)),
                from_address: eip55(&e.from_address),
                value: Nat(big(e.value)),
                principal: e.principal,
                erc20_contract_address: eip55(&e.erc20_contract_address),
                subaccount: sub,
            };
            (EventType::AcceptedErc20Deposit(e), c)
        }
        4 => {
            let (s, c) = source(g);
            let reason = g.text();
            (EventType::InvalidDeposit { event_source: s, reason: reason.clone() }, EP::InvalidDeposit { event_source: c, reason })
        }
        5 => {
            let (s, c) = source(g);
            let i = g.id();
            (EventType::MintedNative { event_source: s, mint_block_index: LedgerMintIndex::new(i) }, EP::MintedNative { event_source: c, mint_block_index: n64(i) })
        }
        6 => {
            let b: BlockNumber = g.amt();
            (EventType::SyncedToBlock { block_number: b }, EP::SyncedToBlock { block_number: Nat(big(b)) })
        }
        7 => {
            let r = NativeWithdrawalRequest {
                withdrawal_amount: g.amt(),
                destination: g.addr(),
                ledger_burn_index: LedgerBurnIndex::new(g.id()),
                from: g.principal(),
                from_subaccount: g.subaccount(),
                created_at: g.opt(|g| g.id()),
            };
            let c = EP::AcceptedNativeWithdrawalRequest {
                withdrawal_amount: Nat(big(r.withdrawal_amount)),
                destination: eip55(&r.destination),
                ledger_burn_index: n64(r.ledger_burn_index.get()),
                from: r.from,
                from_subaccount: r.from_subaccount.as_ref().map(|s| s.0),
                created_at: r.created_at,
            };
            (EventType::AcceptedNativeWithdrawalRequest(r), c)
        }
        8 | 10 => {
            let id = g.id();
            let (t, c) = transaction(g);
            let w = LedgerBurnIndex::new(id);
            if i == 8 {
                (EventType::CreatedTransaction { withdrawal_id: w, transaction: t }, EP::CreatedTransaction { withdrawal_id: n64(id), transaction: c })
            } else {
                (EventType::ReplacedTransaction { withdrawal_id: w, transaction: t }, EP::ReplacedTransaction { withdrawal_id: n64(id), transaction: c })
            }
        }
        9 => {
            let id = g.id();
            let (t, _) = transaction(g);
            let (r, s): (Wei, Wei) = (g.amt(), g.amt());
            let t = SignedEip1559TransactionRequest::from((t, Eip1559Signature { signature_y_parity: g.shape != 1, r: r.into_inner(), s: s.into_inner() }));
            let raw = t.raw_transaction_hex();
            (EventType::SignedTransaction { withdrawal_id: LedgerBurnIndex::new(id), transaction: t }, EP::SignedTransaction { withdrawal_id: n64(id), raw_transaction: raw })
        }
        11 => {
            let id = g.id();
            let r = TransactionReceipt {
                block_hash: g.hash(),
                block_number: g.amt(),
                effective_gas_price: g.amt(),
                gas_used: g.amt(),
                status: if g.shape == 1 { TransactionStatus::Failure } else { TransactionStatus::Success },
                transaction_hash: g.hash(),
            };
            let c = ce::TransactionReceipt {
                block_hash: hexs(&r.block_hash),
                block_number: Nat(big(r.block_number)),
                effective_gas_price: Nat(big(r.effective_gas_price)),
                gas_used: Nat(big(r.gas_used)),
                status: if g.shape == 1 { ce::TransactionStatus::Failure } else { ce::TransactionStatus::Success },
                transaction_hash: hexs(&r.transaction_hash),
            };
            (EventType::FinalizedTransaction { withdrawal_id: LedgerBurnIndex::new(id), transaction_receipt: r }, EP::FinalizedTransaction { withdrawal_id: n64(id), transaction_receipt: c })
        }
        12 => {
            let r = reimbursed(g);
            let c = EP::ReimbursedNativeWithdrawal {
                reimbursed_in_block: n64(r.reimbursed_in_block.get()),
                withdrawal_id: n64(r.burn_in_block.get()),
                reimbursed_amount: Nat(big(r.reimbursed_amount)),
                transaction_hash: r.transaction_hash.as_ref().map(hexs),
            };
            (EventType::ReimbursedNativeWithdrawal(r), c)
        }
        13 => {
            let t = ERC20Token {
                chain_id: NETS[g.net],
                erc20_contract_address: g.addr(),
                erc20_token_symbol: ERC20TokenSymbol::new(["icUSDC", "", "icSYMBOL.of-20-chars"][g.shape].to_string()),
                erc20_ledger_id: g.principal(),
            };
            let c = EP::AddedErc20Token {
                chain_id: n64(CHAIN_IDS[g.net]),
                address: eip55(&t.erc20_contract_address),
                erc20_token_symbol: ["icUSDC", "", "icSYMBOL.of-20-chars"][g.shape].to_string(),
                erc20_ledger_id: t.erc20_ledger_id,
            };
            (EventType::AddedErc20Token(t), c)
        }
        14 => {
            let r = Erc20WithdrawalRequest {
                max_transaction_fee: g.amt(),
                withdrawal_amount: g.amt(),
                destination: g.addr(),
                native_ledger_burn_index: LedgerBurnIndex::new(g.id()),
                erc20_contract_address: g.addr(),
                erc20_ledger_id: g.principal(),
                erc20_ledger_burn_index: LedgerBurnIndex::new(g.id()),
                from: g.principal(),
                from_subaccount: g.subaccount(),
                created_at: g.id(),
            };
            let c = EP::AcceptedErc20WithdrawalRequest {
                max_transaction_fee: Nat(big(r.max_transaction_fee)),
                withdrawal_amount: Nat(big(r.withdrawal_amount)),
                erc20_contract_address: eip55(&r.erc20_contract_address),
                destination: eip55(&r.destination),
                native_ledger_burn_index: n64(r.native_ledger_burn_index.get()),
                erc20_ledger_id: r.erc20_ledger_id,
                erc20_ledger_burn_index: n64(r.erc20_ledger_burn_index.get()),
                from: r.from,
                from_subaccount: r.from_subaccount.as_ref().map(|s| s.0),
                created_at: r.created_at,
            };
            (EventType::AcceptedErc20WithdrawalRequest(r), c)
        }
        15 => {
            let (s, c) = source(g);
            let (i, sym, a) = (g.id(), g.text(), g.addr());
            let text = eip55(&a);
            (
                EventType::MintedErc20 { event_source: s, mint_block_index: LedgerMintIndex::new(i), erc20_token_symbol: sym.clone(), erc20_contract_address: a },
                EP::MintedErc20 { event_source: c, mint_block_index: n64(i), erc20_token_symbol: sym, erc20_contract_address: text },
            )
        }
        16 => {
            let (id, l) = (g.id(), g.principal());
            let r = reimbursed(g);
            let c = EP::ReimbursedErc20Withdrawal {
                withdrawal_id: n64(id),
                burn_in_block: n64(r.burn_in_block.get()),
                reimbursed_in_block: n64(r.reimbursed_in_block.get()),
                ledger_id: l,
                reimbursed_amount: Nat(big(r.reimbursed_amount)),
                transaction_hash: r.transaction_hash.as_ref().map(hexs),
            };
            (EventType::ReimbursedErc20Withdrawal { native_ledger_burn_index: LedgerBurnIndex::new(id), erc20_ledger_id: l, reimbursed: r }, c)
        }
        17 => {
            let r = ReimbursementRequest {
                ledger_burn_index: LedgerBurnIndex::new(g.id()),
                reimbursed_amount: g.amt(),
                to: g.principal(),
                to_subaccount: g.subaccount(),
                transaction_hash: g.opt(|g| g.hash()),
            };
            let c = EP::FailedErc20WithdrawalRequest {
                withdrawal_id: n64(r.ledger_burn_index.get()),
                reimbursed_amount: Nat(big(r.reimbursed_amount)),
                to: r.to,
                to_subaccount: r.to_subaccount.as_ref().map(|s| s.0),
            };
            (EventType::FailedErc20WithdrawalRequest(r), c)
        }
        18 => {
            let (s, c) = source(g);
            (EventType::QuarantinedDeposit { event_source: s }, EP::QuarantinedDeposit { event_source: c })
        }
        19 => {
            let (x, c) = if g.shape == 1 {
                let i = g.id();
                (ReimbursementIndex::Native { ledger_burn_index: LedgerBurnIndex::new(i) }, ce::ReimbursementIndex::Native { ledger_burn_index: n64(i) })
            } else {
                let (i, l, j) = (g.id(), g.principal(), g.id());
                (
                    ReimbursementIndex::Erc20 { native_ledger_burn_index: LedgerBurnIndex::new(i), ledger_id: l, erc20_ledger_burn_index: LedgerBurnIndex::new(j) },
                    ce::ReimbursementIndex::Erc20 { native_ledger_burn_index: n64(i), ledger_id: l, erc20_ledger_burn_index: n64(j) },
                )
            };
            (EventType::QuarantinedReimbursement { index: x }, EP::QuarantinedReimbursement { index: c })
        }
        _ => {
            let b: BlockNumber = g.amt();
            (EventType::SkippedBlock { block_number: b }, EP::SkippedBlock { block_number: Nat(big(b)) })
        }
    }
}
fn concrete(k: usize) -> BigUint {
    n(1_000 + 7 * k as u64)
}
/// Number of numeric fields of a sample.
fn fields(kind: usize, shape: usize) -> usize {
    let mut count = 0;
    let mut f = |k: usize, _: bool| {
        count = k + 1;
        concrete(k)
    };
    let mut g = Gen::new(&mut f, shape, 0);
    let _ = symx::raw(|| sample(kind, &mut g));
    count
}
fn has_net(kind: usize) -> bool {
    kind == 0 || kind == 13
}
/// One kind of event with one numeric field symbolic (or none, if it has none).
fn one_symbolic() -> (EventType, ce::EventPayload, Option<BigUint>) {
    let kind = choose("kind", KINDS);
    let shape = choose("shape", 3);
    let net = if has_net(kind) { choose("net", NETS.len()) } else { 1 };
    let c = fields(kind, shape);
    let sel = if c == 0 { 0 } else { choose("field", c) };
    let mut v = None;
    let mut f = |k: usize, is_id: bool| {
        if k == sel {
            if is_id {
                cover("id");
            }
            let x = nat("v", if is_id { 64 } else { 256 });
            v = Some(x.clone());
            x
        } else {
            concrete(k)
        }
    };
    let mut g = Gen::new(&mut f, shape, net);
    let (e, c) = sample(kind, &mut g);
    (e, c, v)
}

fn event_roundtrip() {
    symx::allow_primitive(true);
    let (payload, _, v) = one_symbolic();
    let e = Event { timestamp: nat("time", 64).to_u64().unwrap(), payload };
    let bytes = e.to_bytes().into_owned();
    if let Some(v) = v {
        cover(if v <= n(u32::MAX as u64) {
            "u32"
        } else if v <= n(u64::MAX) {
            "u64"
        } else {
            "big"
        });
    }
    let back = <Event as Storable>::from_bytes(bytes.into());
    verify!("P12", same_event(&back, &e), "a stored event reads back differently");
}
/// (y parity, r, s) of a signed transaction, read from its raw bytes.
fn signature(t: &SignedEip1559TransactionRequest) -> Vec<BigUint> {
    let bytes = hex::decode(t.raw_transaction_hex().trim_start_matches("0x")).unwrap();
    let r = rlp::Rlp::new(&bytes[1..]);
    (9..12).map(|i| BigUint::from_bytes_be(r.at(i).unwrap().data().unwrap())).collect()
}
/// Equality of events. Signed transactions keep a hash of their bytes, and a symbolic number has several
/// byte forms, so they are compared by their fields.
fn same_event(a: &Event, b: &Event) -> bool {
    use EventType::SignedTransaction as S;
    match (&a.payload, &b.payload) {
        (S { withdrawal_id: i, transaction: t }, S { withdrawal_id: j, transaction: u }) if !symx::is_concrete() => {
            a.timestamp == b.timestamp && i == j && t.transaction() == u.transaction() && signature(t) == signature(u)
        }
        _ => a == b,
    }
}

fn boundary(j: usize) -> BigUint {
    match j {
        0 => n(0),
        1 => n(1),
        2 => n(23),
        3 => n(24),
        _ => {
            let j = j - 4;
            let p = BigUint::from(1u8) << (8 * (j / 2 + 1)) as u32;
            if j % 2 == 0 {
                p - n(1)
            } else {
                p
            }
        }
    }
}
/// 0, 1, 23, 24, and 2^8k-1, 2^8k for k = 1..32 (the last 2^256 left out)
const BOUNDARIES: usize = 4 + 63;

fn event_bytes() {
    symx::allow_primitive(true);
    let j = choose("boundary", BOUNDARIES);
    let shape = choose("shape", 3);
    let b = boundary(j);
    cover(if j < 8 { "small" } else { "large" });
    let time = nat("time", 64).to_u64().unwrap();
    for kind in 0..KINDS {
        if fields(kind, shape) == 0 || (j == 0 && (kind == 2 || kind == 3)) {
            continue;
        }
        let mut f = |k: usize, is_id: bool| {
            if is_id && b.bits() > 64 {
                n(u64::MAX)
            } else {
                b.clone()
            }
        };
        let mut g = Gen::new(&mut f, shape, 1);
        let (payload, _) = sample(kind, &mut g);
        let e = Event { timestamp: time, payload };
        let back = <Event as Storable>::from_bytes(e.to_bytes().into_owned().into());
        verify!("P12", back == e, "a stored event reads back differently");
    }
}

// ---------------------------------------------------------------- bytes stored by the pinned version

/// A number that stands for the k-th numeric field of a size class (0: 32 bits, 1: 64 bits, 2: 256 bits).
fn placeholder(k: usize, is_id: bool, class: usize) -> (BigUint, usize) {
    let w = match class {
        _ if is_id => 8,
        0 => 4,
        1 => 8,
        _ => 32,
    };
    let mut v = vec![0xd5u8; w];
    v[w - 2] = 0x9e;
    v[w - 1] = k as u8;
    (BigUint::from_bytes_be(&v), w)
}
const GOLDEN_TIME: u64 = 0xd5d5_d5d5_d5d5_9eff;

/// Developer tool: the stored form of every sample, as this version writes it.
pub fn golden() -> Vec<serde_json::Value> {
    let mut out = vec![];
    for kind in 0..KINDS {
        for shape in 0..3 {
            for class in 0..3 {
                for net in 0..(if has_net(kind) { NETS.len() } else { 1 }) {
                    if net > 0 && (class > 0 || shape > 0) {
                        continue;
                    }
                    let mut f = |k: usize, is_id: bool| placeholder(k, is_id, class).0;
                    let mut g = Gen::new(&mut f, shape, net);
                    let e = Event { timestamp: GOLDEN_TIME, payload: sample(kind, &mut g).0 };
                    out.push(serde_json::json!([kind, shape, class, net, hex::encode(e.to_bytes())]));
                }
            }
        }
    }
    out
}
fn swap_bytes(b: &mut [u8], from: &[u8], to: &[u8]) -> usize {
    assert_eq!(from.len(), to.len());
    let mut hits = 0;
    let mut i = 0;
    while i + from.len() <= b.len() {
        if &b[i..i + from.len()] == from {
            b[i..i + from.len()].copy_from_slice(to);
            hits += 1;
            i += from.len();
        } else {
            i += 1;
        }
    }
    hits
}
fn event_golden() {
    symx::allow_primitive(true);
    let all: Vec<(usize, usize, usize, usize, String)> = symx::raw(|| serde_json::from_str(include_str!("golden_events.json")).unwrap());
    let (kind, shape, class, net, text) = all[choose("stored", all.len())].clone();
    let mut bytes = hex::decode(text).unwrap();
    let bits = [32, 64, 256][class];
    let mut values: Vec<(usize, bool, BigUint)> = vec![];
    let mut f = |k: usize, is_id: bool| {
        let v = nat("v", if is_id { bits.min(64) } else { bits });
        values.push((k, is_id, v.clone()));
        v
    };
    let mut g = Gen::new(&mut f, shape, net);
    let (payload, _) = sample(kind, &mut g);
    let time = nat("time", 64).to_u64().unwrap();
    let e = Event { timestamp: time, payload };
    for (k, is_id, v) in values {
        let (p, w) = placeholder(k, is_id, class);
        let to: Vec<u8> = match w {
            4 => v.to_u32().unwrap().to_be_bytes().to_vec(),
            8 => v.to_u64().unwrap().to_be_bytes().to_vec(),
            _ => to_amt::<WeiTag>(&v).to_be_bytes().to_vec(),
        };
        let hits = swap_bytes(&mut bytes, &symx::raw(|| p.to_bytes_be()), &to);
        assert_eq!(hits, 1, "the placeholder is not unique");
    }
    assert_eq!(swap_bytes(&mut bytes, &GOLDEN_TIME.to_be_bytes(), &time.to_be_bytes()), 1);
    let back = std::panic::catch_unwind(|| <Event as Storable>::from_bytes(bytes.into()));
    let back = match back {
        Ok(b) => Some(b),
        Err(p) if p.is::<symx::PathKill>() => std::panic::resume_unwind(p),
        Err(_) => None,
    };
    cover("decoded");
    verify!("P12", back.is_some(), "an event stored by the pinned version cannot be read any more");
    if let Some(back) = back {
        verify!("P12", same_event(&back, &e), "an event stored by the pinned version reads back differently");
    }
}

// ------------------------------------------------------------------------------------------ P27

fn history() {
    symx::allow_primitive(true);
    sim::set_time(77);
    install(init_arg(EvmNetwork::Sepolia));
    let (payload, want, _) = one_symbolic();
    sim::set_time(123_456_789);
    evm_minter::storage::record_event(payload);
    let r = ep::call_get_events(ce::GetEventsArg { start: 0, length: 2 });
    cover("shown");
    verify!("P27", r.total_event_count == 2 && r.events.len() == 2, "the history does not have the recorded events");
    verify!("P27", r.events[0].timestamp == 77 && r.events[0].payload == ce::EventPayload::Init(init_arg(EvmNetwork::Sepolia)), "the first event is not the installation");
    verify!("P27", r.events[1].timestamp == 123_456_789, "the time of an event is shown wrongly");
    verify!("P27", r.events[1].payload == want, "an event is shown with other values than recorded");
    done();
}

fn history_pages() {
    symx::allow_primitive(true);
    sim::set_time(1_000);
    install(init_arg(EvmNetwork::Sepolia));
    let total = [1usize, 2, 100, 101, 205][choose("total", 5)];
    let v: BlockNumber = amt("block", 200);
    for i in 1..total {
        sim::set_time(1_000 + i as u64);
        let b = v.checked_add(BlockNumber::from(i as u64)).unwrap();
        evm_minter::storage::record_event(if i % 2 == 0 { EventType::SyncedToBlock { block_number: b } } else { EventType::SkippedBlock { block_number: b } });
    }
    let t = total as u64;
    let start = [0, 1, 99, 100, 101, t - 1, t, t + 1, 1 << 63][choose("start", 9)];
    let length = [0, 1, 2, 99, 100, 101, 1 << 63][choose("length", 7)];
    let r = ep::call_get_events(ce::GetEventsArg { start, length });
    verify!("P27", r.total_event_count == t, "the total number of events is wrong");
    let from = start.min(t);
    let to = (from + length.min(100)).min(t);
    cover(match to - from {
        0 => "empty page",
        100 => "full page",
        _ => "short page",
    });
    verify!("P27", r.events.len() as u64 == to - from, "a page of the history has the wrong length");
    for (j, e) in r.events.iter().enumerate() {
        let i = from + j as u64;
        let right = if i == 0 {
            matches!(e.payload, ce::EventPayload::Init(_))
        } else {
            let b = Nat(big(v) + n(i));
            match &e.payload {
                ce::EventPayload::SyncedToBlock { block_number } => i % 2 == 0 && *block_number == b,
                ce::EventPayload::SkippedBlock { block_number } => i % 2 == 1 && *block_number == b,
                _ => false,
            }
        };
        verify!("P27", e.timestamp == 1_000 + i && right, "a page of the history does not show the events in recorded order");
    }
    done();
}

// ------------------------------------------------------------------------------------------------- P32

/// The memos themselves: published form and length. That the right one is attached is checked where transfers are made.
fn memos() {
    use evm_minter::deposit_logs::ReceivedDepositEvent;
    use evm_minter::memo::BurnMemo;
    use icrc_ledger_types::icrc1::transfer::Memo;
    symx::allow_primitive(true);
    let mark = [0x00u8, 0x18, 0x7f, 0xff][choose("bytes", 4)];
    let (to, hash) = (Address::new([mark; 20]), Hash([mark ^ 1; 32]));
    let ids = [0u64, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX];
    let tob = MemoField::Bytes(vec![mark; 20]);
    let hb = MemoField::Bytes(vec![mark ^ 1; 32]);
    let amount = nat("amount", 256);
    let refund = |h: Option<Hash>, id: u64| ReimbursementRequest {
        ledger_burn_index: LedgerBurnIndex::new(id),
        reimbursed_amount: to_amt(&amount),
        to: user(1),
        to_subaccount: None,
        transaction_hash: h,
    };
    let what = ["deposit", "refund of a transaction", "refund of a burn", "native burn", "gas fee burn", "token burn"];
    let k = choose("kind", 6);
    cover(what[k]);
    let (memo, kind, want): (Memo, u64, Vec<MemoField>) = match k {
        0 => {
            let index = nat("log_index", 64);
            let erc20 = flag("erc20");
            let e: ReceivedDepositEvent = if erc20 {
                ReceivedErc20Event { transaction_hash: hash, block_number: 9u64.into(), log_index: to_amt(&index), from_address: to, value: to_amt(&amount), principal: user(1), erc20_contract_address: token_addr(1), subaccount: None }.into()
            } else {
                ReceivedNativeEvent { transaction_hash: hash, block_number: 9u64.into(), log_index: to_amt(&index), from_address: to, value: to_amt(&amount), principal: user(1), subaccount: None }.into()
            };
            ((&e).into(), 0, vec![tob, hb, MemoField::Num(index)])
        }
        1 => {
            let id = ids[choose("id", ids.len())];
            (refund(Some(hash), id).into(), 1, vec![MemoField::Num(n(id)), hb])
        }
        2 => {
            let id = ids[choose("id", ids.len())];
            (refund(None, id).into(), 2, vec![MemoField::Num(n(id))])
        }
        3 => (BurnMemo::Convert { to_address: to }.into(), 0, vec![tob]),
        4 => {
            let sym = "ic".to_string() + &"X".repeat([1, 2, 9, 17, 18][choose("symbol", 5)]);
            let m = BurnMemo::Erc20GasFee { erc20_token_symbol: sym.parse().unwrap(), erc20_withdrawal_amount: to_amt(&amount), to_address: to };
            (m.into(), 1, vec![MemoField::Text(sym), MemoField::Num(amount.clone()), tob])
        }
        _ => {
            let id = ids[choose("id", ids.len())];
            (BurnMemo::Erc20Convert { erc20_withdrawal_id: id, to_address: to }.into(), 2, vec![MemoField::Num(n(id)), tob])
        }
    };
    if memo.0.len() == 80 {
        cover("full length");
    }
    verify!("P32", memo.0.len() <= 80, "a memo is longer than a ledger accepts");
    let got = read_memo(&memo.0);
    verify!("P32", got == Some((kind, want)), &format!("the memo of a {} is not in its published form", what[k]));
    done();
}
