//! P01-P08, P21: decoding agrees with the reference interpreter.
const FILE_ID: u64 = 1;
use crate::gen;
use crate::mk::*;
use crate::rt::*;
use crate::spec;
use alloc::vec;
use external_memory_tools::BufferError;
use substrate_parser::error::ParserError;
use scale_info::{PortableRegistry, TypeDefPrimitive as P};

/// Decoding `id` from `start` gives exactly what the reference says: the same
/// value at the same end position, or an error when the bytes are no value.
#[inline(never)]
pub fn agree(r: &PortableRegistry, id: u32, d: &[u8], start: usize, m: spec::Cmp) {
    if crate::p_why::on() {
        return crate::p_why::value(r, id, d);
    }
    let (mut p, mut q) = (start, start);
    let got = decode_at(r, id, d, &mut p);
    let want = spec::decode(r, id, d, &mut q, spec::TOP);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            cover(1);
            note(1, p as u64);
            check!(p == q, "bytes consumed");
            check!(spec::same_ext(r, w, g, m), "decoded value");
        }
        (Err(_), Err(_)) => {
            cover(2);
            note(1, 999)
        }
        (Ok(_), Err(_)) => check!(false, "valid encoding rejected"),
        (Err(_), Ok(_)) => check!(false, "invalid encoding accepted"),
    }
}

/// P01. Parameter 0: the primitive.
#[no_mangle]
pub extern "C" fn h_prim() {
    let k = pick(0, 15) as usize;
    let mut b = Reg::new();
    let t = b.prim(PRIMS[k].clone());
    let r = b.done();
    let size = match PRIMS[k] {
        P::Bool | P::U8 | P::I8 => 1,
        P::U16 | P::I16 => 2,
        P::Char | P::U32 | P::I32 => 4,
        P::U64 | P::I64 => 8,
        P::U128 | P::I128 => 16,
        P::U256 | P::I256 => 32,
        P::Str => 5,
    };
    let d = if size > 8 {
        let n = size - 1 + choice(3) as usize;
        bytes(n)
    } else {
        blob(size + 1)
    };
    agree(&r, t, &d, 0, spec::VALUES);
}

/// P01. Strings: parameter 0: longest body; the length byte is anything.
#[no_mangle]
pub extern "C" fn h_str() {
    let mut b = Reg::new();
    let t = b.prim(P::Str);
    let r = b.done();
    let mut d = arr::<1>().to_vec();
    d.extend_from_slice(&blob(param(0) as usize));
    agree(&r, t, &d, 0, spec::VALUES);
}

/// The types that parameter-less compacts may contain, by index: unsigned
/// integers, then `PerThing`s.
fn compactable(b: &mut Reg, k: u64) -> u32 {
    match k {
        0..=4 => b.prim([P::U8, P::U16, P::U32, P::U64, P::U128][k as usize].clone()),
        _ => {
            let (n, p) = [
                ("Percent", P::U8),
                ("PerU16", P::U16),
                ("Permill", P::U32),
                ("Perbill", P::U32),
                ("Perquintill", P::U64),
            ][k as usize - 5].clone();
            let x = b.prim(p);
            b.comp(&["sp_arithmetic", "per_things", n], vec![field(None, x, None)])
        }
    }
}
/// P02. Parameter 0: the number inside, 1: the wrapping, 2: longest input.
#[no_mangle]
pub extern "C" fn h_compact() {
    let mut b = Reg::new();
    let k = pick(0, 10);
    let inner = compactable(&mut b, k);
    let w = match pick(1, 5) {
        0 => inner,
        1 => b.comp(&["m", "W"], vec![field(None, inner, None)]),
        2 => b.tuple(&[inner]),
        3 => {
            let x = b.tuple(&[inner]);
            b.comp(&["m", "W"], vec![field(Some("v"), x, Some("Balance"))])
        }
        _ => {
            let x = b.comp(&["m", "V"], vec![field(None, inner, None)]);
            let y = b.comp(&["m", "W"], vec![field(Some("v"), x, None)]);
            let c = b.compact(y);
            b.comp(&["m", "Outer"], vec![field(Some("nonce"), c, None)])
        }
    };
    let t = if matches!(param(1), 4) { w } else { b.compact(w) };
    gen::dress(&mut b);
    let r = b.done();
    let size = [1, 2, 4, 8, 16, 1, 2, 4, 4, 8][k as usize];
    let d = blob(if size > 4 { size + 2 } else { 6 });
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P02. What has no compact form is rejected inside a compact, whatever the data.
#[no_mangle]
pub extern "C" fn h_compact_bad() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let k = choice(26);
    let special = |b: &mut Reg, p: &[&str], n: u32| b.bytes_struct(p, n);
    let inner = match k {
        0 => b.prim(P::Bool),
        1 => b.prim(P::Char),
        2 => b.prim(P::Str),
        3 => b.prim(P::I8),
        4 => b.prim(P::I16),
        5 => b.prim(P::I32),
        6 => b.prim(P::I64),
        7 => b.prim(P::I128),
        8 => b.prim(P::U256),
        9 => b.prim(P::I256),
        10 => b.seq(u),
        11 => b.array(u, 2),
        12 => b.tuple(&[u, u]),
        13 => b.comp(&["m", "S"], vec![field(None, u, None), field(None, u, None)]),
        14 => b.option(u),
        15 => {
            let o = b.comp(&["bitvec", "order", "Lsb0"], vec![]);
            b.bits(u, o)
        }
        16 => b.compact(u),
        17 => special(&mut b, &["sp_core", "crypto", "AccountId32"], 32),
        18 => special(&mut b, &["primitive_types", "H256"], 32),
        19 => special(&mut b, &["primitive_types", "H160"], 20),
        20 => special(&mut b, &["primitive_types", "H512"], 64),
        21 => b.var(&["sp_runtime", "generic", "era", "Era"], vec![]),
        22 => special(&mut b, &["sp_core", "sr25519", "Public"], 32),
        23 => special(&mut b, &["sp_core", "ed25519", "Signature"], 64),
        24 => b.array(u, 0),
        _ => b.var(&["m", "Never"], vec![]),
    };
    let inner = if flag() { b.comp(&["m", "W"], vec![field(None, inner, None)]) } else { inner };
    let c = b.compact(inner);
    let c = match choice(4) {
        0 => c,
        1 => b.comp(&["m", "O"], vec![field(Some("o"), c, Some("Balance"))]),
        2 => b.tuple(&[c]),
        _ => {
            let x = b.comp(&[], vec![field(None, c, None)]);
            b.comp(&["m", "O"], vec![field(None, x, None)])
        }
    };
    let in_vec = flag();
    let t = if in_vec { b.seq(c) } else { c };
    let r = b.done();
    let d = if k >= 17 && k <= 23 { bytes(66) } else { blob(4) };
    if crate::p_why::on() {
        return crate::p_why::value(&r, t, &d);
    }
    let mut p = 0;
    let got = decode_at(&r, t, &d, &mut p);
    // an empty set has no element to be invalid
    let empty = in_vec && d.len() > 0 && d[0] == 0;
    if empty && got.is_ok() {
        cover(1);
        return;
    }
    cover(2);
    check!(got.is_err(), "compact of a type without compact form accepted");
}
/// P02. `find_compact` itself. Parameter 0: number, 1: longest input.
#[no_mangle]
pub extern "C" fn h_find_compact() {
    use substrate_parser::compacts::*;
    let k = pick(0, 5);
    let d = blob(param(1) as usize);
    let start = choice(3) as usize;
    let s: &[u8] = &d;
    let mut q = start;
    let size = [1usize, 2, 4, 8, 16][k as usize];
    let want = if start > d.len() { Err(spec::BAD) } else { spec::compact(&d, &mut q, size) };
    macro_rules! run {
        ($t:ty) => {{
            let f = find_compact::<$t, &[u8], ()>(&s, &mut (), start);
            let mut p = start;
            let g = get_compact::<$t, &[u8], ()>(&s, &mut (), &mut p);
            match (&f, &want) {
                (Ok(x), Ok(v)) => {
                    cover(1);
                    note(1, x.start_next_unit as u64);
                    check!(x.compact as u128 == *v, "compact value");
                    check!(x.start_next_unit == q, "end of the compact");
                    check!(matches!(g, Ok(y) if y == x.compact) && p == q, "get_compact");
                }
                (Err(_), Err(_)) => {
                    cover(2);
                    check!(g.is_err() && p == start, "get_compact moved on failure")
                }
                (Err(_), Ok(_)) => check!(false, "valid compact rejected"),
                (Ok(_), Err(_)) => check!(false, "invalid compact accepted"),
            }
        }};
    }
    match k {
        0 => run!(u8),
        1 => run!(u16),
        2 => run!(u32),
        3 => run!(u64),
        _ => run!(u128),
    }
}

/// P03. Parameter 0: top constructor (or all), 1: depth below it, 2: longest input.
#[no_mangle]
pub extern "C" fn h_shape() {
    let mut b = Reg::new();
    let k = pick(0, gen::NODES);
    let t = gen::node(&mut b, k, param(1) + 1);
    if param(1) == 0 {
        gen::dress(&mut b);
    }
    let r = b.done();
    let d = blob(param(2) as usize);
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P03. Sets of every element kind: collected, in order, and of the right length.
/// Parameter 0: element, 1: number of elements at most, 2: array or vector.
#[no_mangle]
pub extern "C" fn h_set() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let k = pick(0, 15);
    let (e, size) = match k {
        0 => (u, 1),
        1 => (b.prim(P::U16), 2),
        2 => (b.prim(P::U32), 4),
        3 => (b.prim(P::U64), 8),
        4 => (b.prim(P::U128), 16),
        5 => (b.prim(P::I16), 2),
        6 => (b.seq(u), 3),
        7 => (b.array(u, 2), 2),
        8 => {
            let h = b.prim(P::U16);
            let c = b.compact(h);
            (c, 4)
        }
        9 => (b.comp(&["m", "Amount"], vec![field(Some("x"), u, Some("T::Balance"))]), 1),
        10 => {
            let v = b.seq(u);
            (b.comp(&["m", "Bytes"], vec![field(None, v, None)]), 3)
        }
        11 => (b.tuple(&[u, u]), 2),
        12 => (b.tuple(&[]), 0),
        13 => (b.var(&["m", "Never"], vec![]), 0),
        _ => {
            let h = b.prim(P::U16);
            (b.seq(h), 3)
        }
    };
    let n = choice(param(1) + 1) as u32;
    let t = if param(2) == 0 { b.array(e, n) } else { b.seq(e) };
    gen::dress(&mut b);
    let r = b.done();
    let mut d = vec![];
    if param(2) != 0 {
        // the length byte says exactly n, so that long sets are in reach
        d.push((n as u8) << 2);
    }
    let most = n as usize * size;
    let tail = if size == 3 || size == 4 && k == 8 { blob(most.min(7)) } else { bytes(most + choice(2) as usize) };
    d.extend_from_slice(&tail);
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P03. Enum discriminants: the variant whose index is the byte, whatever the order.
#[no_mangle]
pub extern "C" fn h_variant() {
    let mut b = Reg::new();
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let (i, j, k) = ([0u8, 7, 255][choice(3) as usize], [1u8, 0, 128][choice(3) as usize], [2u8, 200][choice(2) as usize]);
    assume(i != j);
    let vs = vec![
        variant("First", i, vec![field(Some("x"), h, None)]),
        variant("Second", j, vec![]),
        variant("Third", k, vec![field(None, u, None), field(None, h, None)]),
    ];
    let t = b.var(&["m", "E"], vs);
    gen::dress(&mut b);
    let r = b.done();
    let d = blob(4);
    agree(&r, t, &d, 0, spec::VALUES);
}

/// P04. Parameter 0: store (u8..u64, then unsupported), 1: order, 2: bytes at most.
#[no_mangle]
pub extern "C" fn h_bits() {
    let mut b = Reg::new();
    let s = match pick(0, 9) {
        0 => b.prim(P::U8),
        1 => b.prim(P::U16),
        2 => b.prim(P::U32),
        3 => b.prim(P::U64),
        4 => b.prim(P::U128),
        5 => b.prim(P::I8),
        6 => b.prim(P::Bool),
        7 => b.tuple(&[]),
        _ => {
            let u = b.prim(P::U8);
            b.comp(&["m", "U8"], vec![field(None, u, None)])
        }
    };
    let u = b.prim(P::U8);
    let o = match pick(1, 6) {
        0 => b.comp(&["bitvec", "order", "Lsb0"], vec![]),
        1 => b.comp(&["bitvec", "order", "Msb0"], vec![]),
        2 => b.comp(&["bitvec", "order", "LocalBits"], vec![]),
        3 => b.comp(&[], vec![]),
        4 => b.var(&["bitvec", "order", "Lsb0"], vec![]),
        _ => {
            let x = b.tuple(&[u]);
            b.path(x, &["Msb0"])
        }
    };
    let t = b.bits(s, o);
    gen::dress(&mut b);
    let r = b.done();
    let d = blob(param(2) as usize);
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P04. Longer bit sequences: parameter 0: store, 1: order, 2: bits (two-byte
/// length), data exactly long enough or one short.
#[no_mangle]
pub extern "C" fn h_bits_long() {
    let mut b = Reg::new();
    let w = [1usize, 2, 4, 8][param(0) as usize];
    let s = b.prim([P::U8, P::U16, P::U32, P::U64][param(0) as usize].clone());
    let o = b.comp(&["bitvec", "order", if param(1) == 0 { "Lsb0" } else { "Msb0" }], vec![]);
    let t = b.bits(s, o);
    let r = b.done();
    let base = param(2);
    let n = base + choice(4);
    let words = (n as usize + 8 * w - 1) / (8 * w);
    let mut d = vec![(n << 2) as u8 | 1, (n >> 6) as u8];
    let short = choice(2) as usize;
    d.extend_from_slice(&bytes(words * w - short));
    agree(&r, t, &d, 0, spec::VALUES);
}

/// P06. Era: what decodes, and that encoding gives back the same bytes.
#[no_mangle]
pub extern "C" fn h_era() {
    let mut b = Reg::new();
    let t = b.var(&["sp_runtime", "generic", "era", "Era"], vec![]);
    let r = b.done();
    let d = blob(3);
    agree(&r, t, &d, 0, spec::VALUES);
}
#[no_mangle]
pub extern "C" fn h_era_codec() {
    use parity_scale_codec::{Decode, Encode};
    use substrate_parser::additional_types::Era;
    let d = blob(3);
    let mut q = 0;
    let want = spec::era(&d, &mut q);
    let mut s: &[u8] = &d;
    let got = Era::decode(&mut s);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            cover(1);
            check!(w == g, "era value");
            check!(s.len() == d.len() - q, "era length");
            let e = g.encode();
            check!(e.len() == q, "era encoded length");
            let mut same = true;
            for i in 0..q {
                same &= e[i] == d[i];
            }
            check!(same, "era encodes to the bytes it came from");
        }
        (Err(_), Err(_)) => cover(2),
        _ => check!(false, "era accepted or rejected wrongly"),
    }
}
/// P06. Every valid mortal era survives encoding and decoding.
#[no_mangle]
pub extern "C" fn h_era_roundtrip() {
    use parity_scale_codec::{Decode, Encode};
    use substrate_parser::additional_types::Era;
    let log = 2 + choice(15);
    let period = 1u64 << log;
    let quant = if period > 4096 { period >> 12 } else { 1 };
    let x = arr::<2>();
    let phase = (x[0] as u64 | (x[1] as u64) << 8) * quant;
    assume(phase < period);
    let e = Era::Mortal(period, phase);
    let enc = e.encode();
    check!(enc.len() == 2, "mortal era takes two bytes");
    let back = Era::decode(&mut &enc[..]);
    cover(1);
    check!(matches!(back, Ok(b) if b == e), "mortal era lost in encoding");
    let i = Era::Immortal.encode();
    check!(i.len() == 1 && i[0] == 0, "immortal era encoding");
}

/// Path and size of types with a dedicated representation, and of look-alikes.
pub fn special(k: u64) -> (&'static [&'static str], u32) {
    match k {
        0 => (&["sp_core", "crypto", "AccountId32"], 32),
        1 => (&["primitive_types", "H256"], 32),
        2 => (&["primitive_types", "H160"], 20),
        3 => (&["account", "AccountId20"], 20),
        4 => (&["primitive_types", "H512"], 64),
        5 => (&["sp_core", "ed25519", "Public"], 32),
        6 => (&["sp_core", "sr25519", "Public"], 32),
        7 => (&["sp_core", "ecdsa", "Public"], 33),
        8 => (&["sp_core", "ed25519", "Signature"], 64),
        9 => (&["sp_core", "sr25519", "Signature"], 64),
        10 => (&["sp_core", "ecdsa", "Signature"], 65),
        11 => (&["sp_arithmetic", "per_things", "Percent"], 1),
        12 => (&["sp_arithmetic", "per_things", "PerU16"], 2),
        13 => (&["sp_arithmetic", "per_things", "Permill"], 4),
        14 => (&["sp_arithmetic", "per_things", "Perbill"], 4),
        15 => (&["sp_arithmetic", "per_things", "Perquintill"], 8),
        // look-alikes that are ordinary structs
        16 => (&["other", "ed25519", "Public"], 3),
        17 => (&["sp_core", "Signature"], 3),
        18 => (&["sp_core", "ecdsa", "Public", "Inner"], 3),
        19 => (&["AccountId32", "Lookup"], 3),
        20 => (&["Public"], 3),
        _ => (&["AccountId32"], 32),
    }
}
/// P07. Types with a dedicated representation. Parameter 0: which.
#[no_mangle]
pub extern "C" fn h_special() {
    let mut b = Reg::new();
    let k = pick(0, 22);
    let (path, n) = special(k);
    let x = b.bytes_struct(path, n);
    let t = match pick(1, 3) {
        0 => x,
        1 => b.seq(x),
        _ => b.comp(&["m", "Holder"], vec![field(Some("nonce"), x, Some("Balance"))]),
    };
    gen::dress(&mut b);
    let r = b.done();
    let m = n as usize * if param(1) == 1 { 2 } else { 1 };
    let d = match choice(3) {
        0 => bytes(m),
        1 => bytes(m - 1),
        _ => bytes(m + 2),
    };
    let d = if param(1) == 1 {
        let mut v = vec![8u8];
        v.extend_from_slice(&d);
        v
    } else {
        d
    };
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P07. `MultiSignature` and its look-alikes.
#[no_mangle]
pub extern "C" fn h_multisig() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let len = [64u32, 65, 63][pick(0, 3) as usize];
    let el = if flag() { u } else { b.prim(P::I8) };
    let a = b.array(el, len);
    let wrapped = if flag() { b.comp(&["m", "Signature"], vec![field(None, a, None)]) } else { a };
    let tn = match choice(4) {
        0 => Some("ed25519::Signature"),
        1 => Some("sr25519::Signature"),
        2 => Some("ecdsa::Signature"),
        _ => None,
    };
    let mut fs = vec![field(None, wrapped, tn)];
    if flag() {
        fs.push(field(None, u, None));
    }
    let ident = if flag() { "MultiSignature" } else { "Multisignature" };
    let ix = choice(2) as u8;
    let t = b.var(&["sp_runtime", ident], vec![variant("A", ix, fs), variant("B", 2, vec![field(None, u, Some("ecdsa::Signature"))])]);
    gen::dress(&mut b);
    let r = b.done();
    let n = match choice(3) {
        0 => 1 + len as usize,
        1 => len as usize,
        _ => 2,
    };
    let d = bytes(n);
    agree(&r, t, &d, 0, spec::VALUES);
}

/// P08. Call and event recognition, and the fall back to ordinary enums.
#[no_mangle]
pub extern "C" fn h_pallet() {
    let mut b = Reg::new();
    let names = ["Call", "RuntimeCall", "Event", "RuntimeEvent", "Kall"];
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let inner_name = names[choice(5) as usize];
    let outer_name = names[pick(0, 5) as usize];
    let w = |b: &mut Reg, x: u32| b.compact(x);
    let inner = match choice(4) {
        0 | 1 => {
            let c = w(&mut b, u);
            let f = vec![field(Some("value"), c, Some("BalanceOf<T>")), field(Some("flag"), u, None)];
            let vs = vec![variant("transfer", 3, f), variant("poke", 0, vec![]), variant("one", 1, vec![field(None, h, None)])];
            b.var(&["pallet_x", "pallet", inner_name], vs)
        }
        2 => b.comp(&["pallet_x", "pallet", inner_name], vec![field(Some("x"), u, None)]),
        _ => b.var(&["pallet_x", inner_name], vec![]),
    };
    let mut fs = vec![field(None, inner, None)];
    match choice(3) {
        0 => fs.push(field(None, u, None)),
        1 => fs.clear(),
        _ => (),
    }
    let second = vec![field(Some("boo"), inner, Some("Inner"))];
    let t = b.var(&["chain", outer_name], vec![variant("Pallet", 5, fs), variant("Other", 0, second)]);
    let t = match choice(3) {
        0 => b.comp(&["m", "W"], vec![field(Some("call"), t, None)]),
        1 => b.array(t, 1),
        _ => t,
    };
    gen::dress(&mut b);
    let r = b.done();
    let d = blob(5);
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P08. A call inside a call (as in batches): the inner one is recognized too.
#[no_mangle]
pub extern "C" fn h_nested_call() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    // ids: outer enum at `o`, pallet enum refers back to it
    let o = b.var(&["chain", "RuntimeCall"], vec![]);
    let v = b.seq(o);
    let vs = vec![
        variant("batch", 0, vec![field(Some("calls"), v, None)]),
        variant("wrap", 1, vec![field(Some("call"), o, None)]),
        variant("remark", 2, vec![field(Some("x"), u, None)]),
    ];
    let inner = b.var(&["pallet_utility", "pallet", "Call"], vs);
    let outer = vec![variant("System", 0, vec![field(None, inner, None)]), variant("Utility", 1, vec![field(None, inner, None)])];
    b.t[o as usize].type_def = scale_info::TypeDef::Variant(scale_info::TypeDefVariant { variants: outer });
    let r = b.done();
    let d = blob(param(0) as usize);
    agree(&r, o, &d, 0, spec::VALUES);
}

/// P05. Locality and consumption. Parameter 0: node or all, 1: depth, 2: longest body.
#[no_mangle]
pub extern "C" fn h_locality() {
    let mut b = Reg::new();
    let t = gen::gen(&mut b, param(1));
    let r = b.done();
    let d = blob(param(2) as usize);
    local(r, t, &d);
}
/// One of these types, and how many bytes it takes, or at most 9.
pub fn more(b: &mut Reg, which: u64) -> (u32, usize) {
    match if which < 3 { which } else { choice(3) } {
        0 => {
            let (path, n) = special(choice(22));
            (b.bytes_struct(path, n), n as usize)
        }
        1 => {
            let s = b.prim([P::U8, P::U16, P::U32, P::U64][choice(4) as usize].clone());
            let o = b.comp(&["bitvec", "order", ["Lsb0", "Msb0"][choice(2) as usize]], vec![]);
            (b.bits(s, o), 9)
        }
        _ => crate::p_mem::enums(b, choice(3)),
    }
}
/// P05. The same for types with a dedicated representation, bit sequences,
/// signatures, calls and events. Parameter 0: which of these.
#[no_mangle]
pub extern "C" fn h_local_more() {
    let mut b = Reg::new();
    let (t, n) = more(&mut b, param(0));
    let r = b.done();
    let d = if n <= 9 { blob(n) } else { bytes(n + choice(3) as usize - 1) };
    local(r, t, &d);
}
/// Before the value there may be this many bytes.
const SHIFTS: [usize; 4] = [1, 2, 3, 8];
fn local(r: PortableRegistry, t: u32, d: &[u8]) {
    let mut p = 0;
    let whole = decode_at(&r, t, d, &mut p);
    check!(p <= d.len(), "position past the data");
    // decode_all accepts exactly what decoding consumes fully
    let all = decode_all(&r, t, d);
    match &whole {
        Ok(w) => {
            cover(1);
            note(1, p as u64);
            check!(all.is_ok() == (p == d.len()), "decode_all_as_type must use all data");
            if let Ok(a) = &all {
                check!(a == w, "decode_all_as_type decodes otherwise");
            } else {
                cover(3);
            }
            // only the bytes consumed matter
            let k = SHIFTS[choice(4) as usize];
            let mut e = bytes(k);
            e.extend_from_slice(&d[..p]);
            e.extend_from_slice(&arr::<3>());
            let mut q = k;
            let moved = decode_at(&r, t, &e, &mut q);
            check!(q == p + k, "length depends on what surrounds the value");
            check!(matches!(&moved, Ok(m) if m == w), "value depends on what surrounds it");
            // and every one of them is needed
            if p > 0 {
                check!(decode_all(&r, t, &d[..p - 1]).is_err(), "value decodes from less than its bytes");
            }
        }
        Err(e) => {
            cover(2);
            check!(all.is_err(), "decode_all_as_type accepts what does not decode");
            let k = SHIFTS[choice(4) as usize];
            let mut x = bytes(k);
            x.extend_from_slice(d);
            let mut q = k;
            match decode_at(&r, t, &x, &mut q) {
                Ok(_) => check!(false, "accepted for what stands before it"),
                Err(m) => check!(!crate::p_why::on() || moved(e, &m, k), "the error is placed elsewhere"),
            }
        }
    }
}
/// Is `g` the error `w`, of data `k` bytes further?
fn moved(w: &ParserError<()>, g: &ParserError<()>, k: usize) -> bool {
    use ParserError::*;
    match (w, g) {
        (Buffer(BufferError::DataTooShort { position: a, minimal_length: x }), Buffer(BufferError::DataTooShort { position: b, minimal_length: y })) => a + k == *b && x == y,
        (Buffer(BufferError::OutOfRange { position: a, total_length: x }), Buffer(BufferError::OutOfRange { position: b, total_length: y })) => {
            a + k == *b && x + k == *y
        }
        (NoCompact { position: a }, NoCompact { position: b }) => a + k == *b,
        (SomeDataNotUsedBlob { from: a }, SomeDataNotUsedBlob { from: b }) => a + k == *b,
        (TypeFailure { position: a, ty: x }, TypeFailure { position: b, ty: y }) => a + k == *b && x == y,
        (UnexpectedEnumVariant { position: a }, UnexpectedEnumVariant { position: b }) => a + k == *b,
        _ => w == g,
    }
}
/// P05. Positions at and beyond the end of the data.
#[no_mangle]
pub extern "C" fn h_out_of_range() {
    let mut b = Reg::new();
    let t = gen::gen(&mut b, 0);
    let r = b.done();
    let d = blob(1);
    let start = choice(4) as usize;
    let mut p = start;
    let got = decode_at(&r, t, &d, &mut p);
    if start >= d.len() {
        // only types without any bytes decode from nothing
        let mut q = 0;
        let nothing = spec::decode(&r, t, &[], &mut q, spec::TOP);
        if nothing.is_err() {
            cover(1);
            check!(got.is_err(), "decoded from beyond the data");
        } else {
            cover(2);
            check!(got.is_ok() && p == start, "empty value");
        }
    }
}
