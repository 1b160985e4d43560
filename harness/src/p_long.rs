//! All properties at sizes where lengths take more than a byte, and for many
//! fields, variants, types and extensions. Most of the data is given, the
//! solver chooses the rest.
const FILE_ID: u64 = 11;
use crate::gen;
use crate::mk::*;
use crate::p_storage::{self, entry, HASHERS};
use crate::p_tx::{calls, tx_case, unchecked_case};
use crate::p_value::agree;
use crate::rt::*;
use crate::spec;
use alloc::{format, vec, vec::Vec};
use frame_metadata::v14::StorageEntryType;
use parity_scale_codec::{Compact, Encode};
use scale_info::{TypeDef, TypeDefPrimitive as P};
use substrate_parser::error::*;

/// `n` bytes, of which the first, last and middle one can be anything.
fn some(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|k| b' ' + (k % 90) as u8).collect();
    let x = arr::<3>();
    if n > 0 {
        v[n / 2] = x[2];
        v[0] = x[0];
        v[n - 1] = x[1];
    }
    v
}
/// The compact form of `n`.
fn len(n: usize) -> Vec<u8> {
    Compact(n as u32).encode()
}
/// `d` as it is, or without the last byte, or with another.
fn around(mut d: Vec<u8>) -> Vec<u8> {
    match choice(3) {
        0 => (),
        1 => {
            d.pop();
        }
        _ => d.push(byte()),
    }
    d
}

/// P01. Strings of as many bytes as parameter 0.
#[no_mangle]
pub extern "C" fn h_long_str() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let t = b.prim(P::Str);
    let r = b.done();
    let mut d = len(n);
    d.extend_from_slice(&some(n));
    agree(&r, t, &around(d), 0, spec::VALUES);
}
/// P01. Texts of as many bytes as parameter 0 of characters of two, three and
/// four bytes, so that each place in the text is within a character.
#[no_mangle]
pub extern "C" fn h_long_text() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let t = b.prim(P::Str);
    let r = b.done();
    let c = [&b"\xc3\xa4"[..], b"\xe2\x82\xac", b"\xf0\x9f\x98\x80"][choice(3) as usize];
    let mut v: Vec<u8> = (0..choice(c.len() as u64)).map(|_| b'.').collect();
    while v.len() + c.len() <= n {
        v.extend_from_slice(c);
    }
    while v.len() < n {
        v.push(b'.');
    }
    v[n - 1] = byte();
    let mut d = len(n);
    d.extend_from_slice(&v);
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P03. Sets of as many elements as parameter 1 of a kind (parameter 0); an
/// array, or a vector (parameter 2).
#[no_mangle]
pub extern "C" fn h_long_set() {
    let n = param(1) as usize;
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let (e, size) = match pick(0, 7) {
        0 => (u, 1),
        1 => (b.tuple(&[]), 0),
        2 => (b.prim(P::U16), 2),
        3 => (b.tuple(&[u, u]), 2),
        4 => (b.comp(&["m", "Newtype"], vec![field(None, u, None)]), 1),
        5 => (b.comp(&["m", "Unit"], vec![]), 0),
        _ => (b.bytes_struct(&["sp_core", "crypto", "AccountId32"], 32), 32),
    };
    let t = if param(2) == 0 { b.array(e, n as u32) } else { b.seq(e) };
    let r = b.done();
    let mut d = if param(2) == 0 { vec![] } else { len(n) };
    d.extend_from_slice(&some(n * size));
    agree(&r, t, &around(d), 0, spec::VALUES);
}
/// P04. As many bits as parameter 2; store (parameter 0) and order (1).
#[no_mangle]
pub extern "C" fn h_long_bits() {
    let n = param(2) as usize;
    let mut b = Reg::new();
    let k = pick(0, 4) as usize;
    let s = b.prim([P::U8, P::U16, P::U32, P::U64][k].clone());
    let o = b.comp(&["bitvec", "order", ["Lsb0", "Msb0"][pick(1, 2) as usize]], vec![]);
    let t = b.bits(s, o);
    let r = b.done();
    let word = 8 << k;
    let mut d = len(n);
    d.extend_from_slice(&some((n + word - 1) / word * (word / 8)));
    agree(&r, t, &around(d), 0, spec::VALUES);
}
/// P03. As many fields as parameter 1, of a struct, a tuple or a variant
/// (parameter 0).
#[no_mangle]
pub extern "C" fn h_many_fields() {
    let n = param(1) as usize;
    let mut b = Reg::new();
    let (u, h, s) = (b.prim(P::U8), b.prim(P::U16), b.prim(P::Str));
    let ty = |k: usize| [u, h, s, u][k % 4];
    let f = |k: usize| field(if k % 5 == 0 { None } else { Some(["a", "b", "c"][k % 3]) }, ty(k), if k % 2 == 0 { None } else { Some("T") });
    let mut d = vec![];
    let t = match pick(0, 4) {
        0 => b.comp(&["m", "Wide"], (0..n).map(f).collect()),
        1 => b.tuple(&(0..n).map(ty).collect::<Vec<u32>>()),
        2 => {
            d.push(byte());
            b.var(&["m", "Enum"], vec![variant("A", 0, vec![]), variant("B", 200, (0..n).map(f).collect())])
        }
        _ => {
            d.push(3);
            d.push(byte());
            let inner = b.var(&["pallet_x", "pallet", "Call"], vec![variant("poke", 7, vec![]), variant("set", 255, (0..n).map(f).collect())]);
            b.var(&["chain", "RuntimeCall"], vec![variant("X", 3, vec![field(None, inner, None)])])
        }
    };
    let r = b.done();
    for k in 0..n {
        d.extend_from_slice(if k % 4 == 1 { &[1, 2] } else if k % 4 == 2 { &[4, 65] } else { &[9] });
        if k == 0 || k + 1 == n {
            let z = d.len() - 1;
            d[z] = byte() & 127;
        }
    }
    agree(&r, t, &around(d), 0, spec::VALUES);
}
/// P03, P08. An enum, or call, of 256 variants. Parameter 0: which.
#[no_mangle]
pub extern "C" fn h_many_variants() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let call = b.var(&["pallet_x", "pallet", "Call"], vec![variant("poke", 7, vec![]), variant("set", 200, vec![field(None, u, None)])]);
    let of = |k: usize, x: u32| {
        let i = (k * 77) as u8;
        variant(&format!("V{i}"), i, if k % 2 == 0 { vec![field(None, x, None)] } else { vec![] })
    };
    let t = match pick(0, 3) {
        0 => b.var(&["m", "Enum"], (0..256).map(|k| of(k, u)).collect()),
        1 => b.var(&["chain", "RuntimeCall"], (0..256).map(|k| of(k, call)).collect()),
        _ => {
            let inner = b.var(&["pallet_x", "pallet", "Call"], (0..256).map(|k| of(k, u)).collect());
            b.var(&["chain", "RuntimeCall"], vec![variant("X", 3, vec![field(None, inner, None)])])
        }
    };
    let r = b.done();
    let mut d = vec![byte()];
    if param(0) == 2 {
        d[0] = 3;
        d.push(byte());
    } else if param(0) == 1 {
        d.push([7, 200, 0][choice(3) as usize]);
    }
    d.push(byte());
    if flag() {
        d.pop();
    }
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P05. Values far into the data: parameter 0: the offset, 1: depth of the
/// type, 2: data at most.
#[no_mangle]
pub extern "C" fn h_far() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let t = gen::gen(&mut b, param(1));
    let r = b.done();
    let v = blob(param(2) as usize);
    let mut d: Vec<u8> = (0..n).map(|k| k as u8).collect();
    d.extend_from_slice(&v);
    let start = n - choice(2) as usize;
    agree(&r, t, &d, start, spec::VALUES);
}
/// P07. Sets of as many types with dedicated representation as parameter 1.
#[no_mangle]
pub extern "C" fn h_many_special() {
    let (path, n) = crate::p_value::special(pick(0, 22));
    let k = param(1) as usize;
    let mut b = Reg::new();
    let x = b.bytes_struct(path, n);
    let t = if flag() { b.array(x, k as u32) } else { b.tuple(&vec![x; k]) };
    let r = b.done();
    agree(&r, t, &around(some(k * n as usize)), 0, spec::VALUES);
}

fn chain(b: &mut Reg) -> (u32, u32, u32) {
    (b.prim(P::U8), b.tuple(&[]), b.bytes_struct(&["primitive_types", "H256"], 32))
}
/// P09. A call with as many bytes as parameter 0, the prefix one less, exact,
/// or one more.
#[no_mangle]
pub extern "C" fn h_long_tx() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let (u, unit, hash) = chain(&mut b);
    let call = calls(&mut b, true);
    let mut m = Meta::new(b.done());
    m.call = call;
    m.exts = vec![ext("CheckSpecVersion", unit, u), ext("CheckGenesis", unit, hash)];
    m.version = "7".into();
    let mut c = vec![4, 2];
    c.extend_from_slice(&len(n));
    c.extend_from_slice(&some(n));
    let mut d = len(c.len() + choice(3) as usize - 1);
    d.extend_from_slice(&c);
    d.push(byte());
    d.extend_from_slice(&arr::<32>());
    if n > 1000 {
        return tx_case(&m.reg.clone(), &m, &d, None, usize::MAX);
    }
    let d = around(d);
    tx_case(&m.reg.clone(), &m, &d, if flag() { Some([b' '; 32]) } else { None }, usize::MAX);
}
/// P10. As many extensions as parameter 0, those that count early, late or twice.
#[no_mangle]
pub extern "C" fn h_many_exts() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let (u, unit, hash) = chain(&mut b);
    let era = b.var(&["sp_runtime", "generic", "era", "Era"], vec![]);
    let nonce = b.comp(&["m", "CheckNonce"], vec![field(None, u, None)]);
    let call = calls(&mut b, true);
    let mut m = Meta::new(b.done());
    m.call = call;
    m.version = "7".into();
    let mut es: Vec<_> = (0..n).map(|k| if k % 2 == 0 { ext("CheckNonce", nonce, unit) } else { ext("Other", unit, u) }).collect();
    let mut d = vec![];
    let at = [0, n / 2, n];
    es.insert(at[choice(3) as usize], ext("CheckGenesis", unit, hash));
    es.insert(at[choice(3) as usize], ext("CheckSpecVersion", unit, u));
    es.insert(at[choice(3) as usize], ext("CheckMortality", era, hash));
    match choice(6) {
        0 => es.push(ext("CheckSpecVersion", u, unit)),
        1 => es.push(ext("CheckGenesis", hash, unit)),
        2 => es.push(ext("CheckMortality", unit, hash)),
        3 => es.push(ext("Again", era, unit)),
        _ => (),
    }
    let x = [arr::<2>(), arr::<2>()];
    let hash_of = |d: &mut Vec<u8>, k: usize| {
        d.extend_from_slice(&[5; 30]);
        d.extend_from_slice(&x[k % 2]);
    };
    let eras = [0u8, 0x15];
    for e in es.iter() {
        if e.ty.id == u {
            d.push(byte());
        } else if e.ty.id == nonce {
            d.push(9);
        } else if e.ty.id == hash {
            hash_of(&mut d, 0);
        } else if e.ty.id == era {
            let k = eras[choice(2) as usize];
            d.push(k);
            if k != 0 {
                d.push(0);
            }
        }
    }
    for (k, e) in es.iter().enumerate() {
        if e.additional_signed.id == u {
            d.push(if e.identifier == "Other" { k as u8 } else { byte() });
        } else if e.additional_signed.id == hash {
            hash_of(&mut d, (e.identifier == "CheckGenesis") as usize);
        }
    }
    m.exts = es;
    let mut t = vec![8, 4, 0];
    t.extend_from_slice(&d);
    let given = if flag() {
        let mut g = vec![];
        hash_of(&mut g, 1);
        g[31] ^= byte() & 1;
        <[u8; 32]>::try_from(g).ok()
    } else {
        None
    };
    tx_case(&m.reg.clone(), &m, &t, given, usize::MAX);
}
/// P11. An extrinsic with a call of as many bytes as parameter 0, the length
/// one less, exact, or one more.
#[no_mangle]
pub extern "C" fn h_long_unchecked() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let (u, _, hash) = chain(&mut b);
    let call = calls(&mut b, true);
    let mut m = Meta::new(b.done());
    m.params = [hash, call, u, u];
    let mut c = vec![byte()];
    if c[0] & 128 != 0 {
        c.extend_from_slice(&arr::<34>());
    }
    c.extend_from_slice(&[4, 2]);
    c.extend_from_slice(&len(n));
    c.extend_from_slice(&some(n));
    let mut d = len(c.len() + choice(3) as usize - 1);
    d.extend_from_slice(&c);
    unchecked_case(&m.reg.clone(), &m, &d);
}
/// P12. A key part of as many bytes as parameter 0, or as many parts
/// (parameter 1: 1), and a value as long.
#[no_mangle]
pub extern "C" fn h_long_store() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let s = b.seq(u);
    let mut k = vec![7; 32];
    let (ks, t): (Vec<usize>, u32) = if param(1) == 0 {
        let h = [2, 5, 6][choice(3) as usize];
        let mut c = len(n);
        c.extend_from_slice(&some(n));
        push(&mut k, h, &c);
        (vec![h], s)
    } else {
        let ks: Vec<usize> = (0..n).map(|i| [6, 5, 0, 6, 2, 3, 6][i % 7]).collect();
        for (i, h) in ks.iter().enumerate() {
            push(&mut k, *h, &[if i + 1 == n || i == 0 { byte() } else { i as u8 }]);
        }
        (ks, b.tuple(&vec![u; n]))
    };
    let r = b.done();
    let mut v = len(n);
    v.extend_from_slice(&some(n));
    let (k, v) = if flag() { (around(k), v) } else { (k, around(v)) };
    let hs = ks.iter().map(|k| HASHERS[*k].clone()).collect();
    let got = p_storage::run(&r, &entry(StorageEntryType::Map { hashers: hs, key: t.into(), value: s.into() }), &k, &v);
    let want = p_storage::key(&r, &ks, t, &k, 32).ok();
    let mut p = 0;
    let value = spec::decode(&r, s, &v, &mut p, spec::TOP).ok().filter(|_| p == v.len());
    match (&want, &value, &got) {
        (Some(w), Some(x), Ok(g)) => {
            cover(1);
            check!(p_storage::same_key(&r, w, &g.key), "key");
            check!(spec::same_ext(&r, x, &g.value, spec::VALUES), "value");
        }
        (_, _, Ok(_)) => check!(false, "bad entry accepted"),
        (Some(_), Some(_), Err(_)) => check!(false, "good entry rejected"),
        _ => cover(2),
    }
}
/// Adds the part of a key whose value is `c`.
fn push(k: &mut Vec<u8>, h: usize, c: &[u8]) {
    match h {
        2 => k.extend_from_slice(&sp_crypto_hashing::blake2_128(c)),
        5 => k.extend_from_slice(&sp_crypto_hashing::twox_64(c)),
        _ => k.extend_from_slice(&vec![3; p_storage::size(h)]),
    }
    if matches!(h, 2 | 5 | 6) {
        k.extend_from_slice(c);
    }
}

/// A type that leads on to `to` without consuming data.
fn on(b: &mut Reg, k: u64, to: u32) -> u32 {
    match k {
        0 => b.comp(&["m", "Named"], vec![field(Some("x"), to, Some("T"))]),
        1 => b.tuple(&[to]),
        2 => b.comp(&["m", "New"], vec![field(None, to, None)]),
        3 => b.array(to, 1),
        _ => {
            let u = b.tuple(&[]);
            b.comp(&["m", "Two"], vec![field(Some("u"), u, None), field(Some("x"), to, None)])
        }
    }
}
/// P16. A cycle of as many types as parameter 0, of one kind (parameter 1) or
/// (5) of all, or what is the same without closing the cycle (parameter 2).
#[no_mangle]
pub extern "C" fn h_long_cycle() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let mut t = u;
    let kind = pick(1, 6);
    // the first one closes the cycle
    let mut first = 0;
    for i in 0..n {
        t = on(&mut b, if kind == 5 { i as u64 % 5 } else { kind }, t);
        if i == 0 {
            first = t;
        }
    }
    let cycle = param(2) == 0;
    if cycle {
        match &mut b.t[first as usize].type_def {
            TypeDef::Composite(x) => x.fields.last_mut().unwrap().ty = t.into(),
            TypeDef::Tuple(x) => x.fields[0] = t.into(),
            TypeDef::Array(x) => x.type_param = t.into(),
            _ => (),
        }
    }
    let t = match choice(3) {
        0 => t,
        1 => b.array(t, 2),
        _ => b.comp(&["m", "Top"], vec![field(Some("a"), u, None), field(Some("b"), t, None)]),
    };
    let r = b.done();
    let d = arr::<2>();
    if cycle {
        let mut p = 0;
        let got = decode_at(&r, t, &d, &mut p);
        cover(1);
        check!(
            matches!(got, Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::CyclicMetadata { .. })))),
            "cycle of types not found"
        );
    } else {
        agree(&r, t, &d, 0, spec::VALUES);
    }
}
/// P17, P21. As many wrappers as parameter 0 around a number; the hint is on
/// the outermost one, or inside; docs on all. Parameter 1: extension or not.
#[no_mangle]
pub extern "C" fn h_long_wrap() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let (mut t, k) = match choice(3) {
        0 => (b.prim(P::U32), 4),
        1 => (b.bytes_struct(&["primitive_types", "H256"], 32), 32),
        _ => (b.prim(P::Str), 2),
    };
    let hints = [(Some("nonce"), None), (None, Some("Balance")), (Some("spec_name"), None), (Some("x"), Some("T"))];
    let (inner, outer) = (hints[choice(4) as usize], hints[choice(4) as usize]);
    let same = flag();
    for i in 0..n {
        let h = if i == 0 { inner } else if i + 1 == n { outer } else { (None, None) };
        t = match i % 3 {
            0 => b.comp(&["m", "W"], vec![field(h.0, t, h.1)]),
            1 => b.tuple(&[t]),
            _ => b.comp(&[], vec![field(h.0, t, h.1)]),
        };
        b.docs(t, if same { &["line"] } else { &["line", "", "another"][..i % 4] });
        if same {
            b.path(t, &["m"]);
        }
    }
    let t = if flag() { b.array(t, 1) } else { t };
    let r = b.done();
    agree(&r, t, &some(k), 0, spec::FULL);
}
/// P21. Docs of as many lines as parameter 0, and paths as long.
#[no_mangle]
pub extern "C" fn h_long_docs() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let lines: Vec<_> = (0..n).map(|k| if k % 3 == 2 { "".into() } else { format!("line {k}") }).collect();
    let mut f = field(Some("a"), u, None);
    f.docs = lines.clone();
    let mut v = variant("V", 0, vec![f.clone()]);
    v.docs = lines.clone();
    let t = if flag() { b.comp(&["m"], vec![f]) } else { b.var(&["m"], vec![v]) };
    b.t[t as usize].docs = lines.clone();
    b.t[t as usize].path.segments = lines;
    let r = b.done();
    agree(&r, t, &blob(2), 0, spec::INFO);
}
/// P15. Strings, sets and bits of as many bytes as parameter 0 in external
/// memory. Parameter 1: which.
#[no_mangle]
pub extern "C" fn h_long_mem() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let (t, k) = match pick(1, 4) {
        0 => (b.prim(P::Str), n),
        1 => {
            let s = b.prim(P::U8);
            let o = b.comp(&["bitvec", "order", "Msb0"], vec![]);
            (b.bits(s, o), 8 * n)
        }
        2 => (b.seq(u), n),
        _ => {
            let s = b.prim(P::Str);
            (b.comp(&["m", "W"], vec![field(None, s, None)]), n)
        }
    };
    let r = b.done();
    let mut d = len(k);
    d.extend_from_slice(&some(n));
    crate::p_mem::value(r, t, &around(d), false);
}
/// P08. Calls in calls, as many as parameter 0: each in the next (parameter 1:
/// 0), or all in one.
#[no_mangle]
pub extern "C" fn h_deep_call() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let o = b.var(&["chain", "RuntimeCall"], vec![]);
    let v = b.seq(o);
    let boxed = b.comp(&["m", "Box"], vec![field(None, o, None)]);
    let vs = vec![
        variant("batch", 0, vec![field(Some("calls"), v, None)]),
        variant("wrap", 1, vec![field(Some("call"), boxed, None)]),
        variant("remark", 2, vec![field(Some("x"), u, Some("Balance"))]),
    ];
    let inner = b.var(&["pallet_utility", "pallet", "Call"], vs);
    let outer = vec![variant("System", 0, vec![field(None, inner, None)]), variant("Balances", 1, vec![field(None, inner, None)])];
    b.t[o as usize].type_def = TypeDef::Variant(scale_info::TypeDefVariant { variants: outer });
    let r = b.done();
    let mut d = vec![];
    if param(1) == 0 {
        let k = choice(3);
        for i in 0..n {
            d.extend_from_slice(if k == 0 || k == 2 && i % 2 == 0 { &[1, 1][..] } else { &[0, 0, 4] });
        }
        d.extend([byte(), byte(), byte()]);
    } else {
        d.extend([byte(), 0]);
        d.extend(len(n));
        for i in 0..n {
            d.extend([(i % 2) as u8, 2, i as u8]);
        }
        let z = d.len() - 3;
        d[z] = byte();
    }
    agree(&r, o, &around(d), 0, spec::VALUES);
}
/// P03, P16. Types in types or values in values, as many as parameter 1, of
/// one kind (parameter 0).
#[no_mangle]
pub extern "C" fn h_deep() {
    let n = param(1) as usize;
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let mut d = vec![];
    let t = match pick(0, 7) {
        0 => {
            let t = b.var(&["m", "List"], vec![]);
            let vs = vec![variant("Nil", 0, vec![]), variant("Cons", 1, vec![field(Some("head"), u, None), field(Some("tail"), t, None)])];
            b.t[t as usize].type_def = TypeDef::Variant(scale_info::TypeDefVariant { variants: vs });
            for k in 0..n {
                d.extend([1, k as u8]);
            }
            d.push(byte());
            t
        }
        1 => {
            let t = b.comp(&["m", "Tree"], vec![]);
            let s = b.seq(t);
            b.t[t as usize].type_def = TypeDef::Composite(scale_info::TypeDefComposite { fields: vec![field(Some("x"), u, None), field(None, s, None)] });
            for k in 0..n {
                d.extend([k as u8, 4]);
            }
            d.extend([byte(), byte()]);
            t
        }
        k => {
            let mut t = b.prim([P::U16, P::U8][choice(2) as usize].clone());
            for i in 0..n {
                t = match k {
                    2 => b.seq(t),
                    3 => b.option(t),
                    4 => b.array(t, 1),
                    5 => b.comp(&["m", "Pair"], vec![field(Some("a"), u, None), field(Some("b"), t, None)]),
                    _ => {
                        let v = variant("V", 1, vec![field(None, t, None)]);
                        b.var(&["m", "One"], vec![v])
                    }
                };
                match k {
                    2 => d.push(4),
                    3 | 6 => d.push(1),
                    5 => d.push(i as u8),
                    _ => (),
                }
            }
            d.extend(arr::<2>());
            t
        }
    };
    let r = b.done();
    agree(&r, t, &around(d), 0, spec::VALUES);
}
/// P05. Types with a dedicated representation, bits, signatures, calls and
/// events behind as many bytes as parameter 0.
#[no_mangle]
pub extern "C" fn h_far_more() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let (t, k) = crate::p_value::more(&mut b, 3);
    let r = b.done();
    let mut d: Vec<u8> = (0..n).map(|k| k as u8).collect();
    d.extend(if k <= 9 { blob(4) } else { bytes(k) });
    agree(&r, t, &d, n, spec::VALUES);
}
