//! P12: storage entries.
const FILE_ID: u64 = 3;
use crate::mk::*;
use crate::rt::*;
use crate::spec::{self, Bad, Why, N, R};
use alloc::{vec, vec::Vec};
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher as K};
use scale_info::{form::PortableForm, PortableRegistry, TypeDef, TypeDefPrimitive as P};
use substrate_parser::storage_data::*;

pub const HASHERS: [K; 7] =
    [K::Blake2_128, K::Blake2_256, K::Blake2_128Concat, K::Twox128, K::Twox256, K::Twox64Concat, K::Identity];
pub fn entry(ty: StorageEntryType<PortableForm>) -> StorageEntryMetadata<PortableForm> {
    StorageEntryMetadata { name: "Entry".into(), modifier: StorageEntryModifier::Optional, ty, default: vec![], docs: strs(&["Line", "", "other"]) }
}
/// An entry that also says what it has when it is not there, or does not.
fn entry_any(ty: StorageEntryType<PortableForm>) -> StorageEntryMetadata<PortableForm> {
    let e = entry(ty);
    if flag() {
        StorageEntryMetadata { name: text([0, 3, 33][choice(3) as usize]), modifier: StorageEntryModifier::Default, default: vec![0, 4, 8], docs: vec![], ..e }
    } else {
        e
    }
}
/// Reference: one part of a key.
pub enum Part {
    Hash(usize, Vec<u8>, u32),
    Val(N),
}
fn part(r: &PortableRegistry, k: usize, ty: u32, d: &[u8], p: &mut usize) -> R<Part> {
    let cut = |n: usize, p: &mut usize| -> R<Part> { Ok(Part::Hash(k, spec::take(d, p, n)?.to_vec(), ty)) };
    match k {
        0 | 3 => cut(16, p),
        1 | 4 => cut(32, p),
        6 => Ok(Part::Val(spec::decode(r, ty, d, p, spec::TOP)?)),
        _ => {
            let h = spec::take(d, p, if k == 2 { 16 } else { 8 })?;
            let from = *p;
            let n = spec::decode(r, ty, d, p, spec::TOP)?;
            let ok = if k == 2 {
                let x = sp_crypto_hashing::blake2_128(&d[from..*p]);
                x[..] == *h
            } else {
                let x = sp_crypto_hashing::twox_64(&d[from..*p]);
                x[..] == *h
            };
            if ok {
                Ok(Part::Val(n))
            } else {
                Err(Bad { at: from, why: Why::Mismatch })
            }
        }
    }
}
/// Reference: a key of a map. `bool`: several parts.
pub fn key(r: &PortableRegistry, ks: &[usize], ty: u32, d: &[u8], from: usize) -> R<(bool, Vec<Part>)> {
    let mut p = from;
    let mut out = vec![];
    if ks.len() == 1 {
        out.push(part(r, ks[0], ty, d, &mut p)?);
    } else {
        match &spec::ty(r, ty).type_def {
            TypeDef::Tuple(t) if t.fields.len() == ks.len() => {
                for i in 0..ks.len() {
                    out.push(part(r, ks[i], t.fields[i].id, d, &mut p)?);
                }
            }
            TypeDef::Tuple(_) => return Err(Bad { at: p, why: Why::Count }),
            _ => return Err(Bad { at: p, why: Why::NotTuple }),
        }
    }
    if p == d.len() {
        Ok((ks.len() != 1, out))
    } else {
        Err(Bad { at: p, why: Why::Rest })
    }
}
fn same_part(r: &PortableRegistry, w: &Part, g: &KeyPart) -> bool {
    match (w, g) {
        (Part::Val(n), KeyPart::Parsed(e)) => spec::same_ext(r, n, e, spec::VALUES),
        (Part::Hash(k, b, t), KeyPart::Hash(h)) => {
            *t == h.type_id
                && match (*k, &h.hash) {
                    (0, Hash::Blake2_128(x)) => b[..] == *x,
                    (1, Hash::Blake2_256(x)) => b[..] == *x,
                    (3, Hash::Twox128(x)) => b[..] == *x,
                    (4, Hash::Twox256(x)) => b[..] == *x,
                    _ => false,
                }
        }
        _ => false,
    }
}
pub fn same_key(r: &PortableRegistry, w: &(bool, Vec<Part>), g: &KeyData) -> bool {
    match (w.0, g) {
        (false, KeyData::SingleHash { content }) => same_part(r, &w.1[0], content),
        (true, KeyData::TupleHash { content, .. }) => w.1.len() == content.len() && w.1.iter().zip(content.iter()).all(|(a, b)| same_part(r, a, b)),
        _ => false,
    }
}
pub fn size(k: usize) -> usize {
    [16, 32, 16, 16, 32, 8, 0][k]
}
pub fn run(r: &PortableRegistry, e: &StorageEntryMetadata<PortableForm>, k: &[u8], v: &[u8]) -> Result<Storage, substrate_parser::error::StorageError<()>> {
    substrate_parser::decode_as_storage_entry::<&[u8], (), Meta>(&k, &v, &mut (), e, r)
}

/// P12. Plain entries: parameter 0: longest value.
#[no_mangle]
pub extern "C" fn h_store_plain() {
    let mut b = Reg::new();
    let t = crate::gen::gen(&mut b, 0);
    let r = b.done();
    let k = bytes(30 + choice(5) as usize);
    let v = blob(param(0) as usize);
    let got = run(&r, &entry_any(StorageEntryType::Plain(t.into())), &k, &v);
    let mut p = 0;
    let want = spec::decode(&r, t, &v, &mut p, spec::TOP).ok().filter(|_| p == v.len() && k.len() == 32);
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            cover(1);
            check!(matches!(g.key, KeyData::Plain), "plain key");
            check!(spec::same_ext(&r, w, &g.value, spec::VALUES), "stored value");
        }
        (None, Err(_)) => cover(2),
        (Some(_), Err(_)) => check!(false, "good entry rejected"),
        (None, Ok(_)) => check!(false, "bad entry accepted"),
    }
}
/// P12. One hasher (parameter 0, or all), key type parameter 1.
#[no_mangle]
pub extern "C" fn h_store_one() {
    let mut b = Reg::new();
    let k = pick(0, 7) as usize;
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let kt = pick(1, 8);
    let t = match kt {
        0 => u,
        1 => b.tuple(&[u, h]),
        2 => b.compact(h),
        3 => b.seq(u),
        4 => b.tuple(&[]),
        5 => b.bytes_struct(&["sp_core", "crypto", "AccountId32"], 32),
        6 => b.tuple(&[h]),
        _ => {
            let x = b.array(u, 33);
            b.tuple(&[h, x, x])
        }
    };
    let r = b.done();
    let e = entry_any(StorageEntryType::Map { hashers: vec![HASHERS[k].clone()], key: t.into(), value: u.into() });
    // the hash, the value, and up to one byte short or one more
    let n = 32 + size(k);
    let d = match choice(4) {
        0 => bytes(n - 1),
        1 => bytes(31),
        _ => {
            let x = 32 + size(k) + [0, 0, 0, 0, 0, 31, 0, 66][kt as usize] + choice(5) as usize;
            bytes(x)
        }
    };
    let v = bytes(choice(3) as usize);
    let got = run(&r, &e, &d, &v);
    let want = if d.len() < 32 { None } else { key(&r, &[k], t, &d, 32).ok() };
    let value_ok = v.len() == 1;
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            cover(1);
            note(1, d.len() as u64);
            check!(value_ok, "value not used in full");
            check!(same_key(&r, w, &g.key), "key");
        }
        (Some(_), Err(_)) => check!(!value_ok, "good entry rejected"),
        (None, Err(_)) => cover(2),
        (None, Ok(_)) => check!(false, "bad key accepted"),
    }
    // trimmed key
    if d.len() >= 32 {
        let s: &[u8] = &d[32..];
        let cut = process_key_mapped::<&[u8], (), Meta>(&[HASHERS[k].clone()], &t.into(), &s, &mut (), 0, &r);
        match (&want, &cut) {
            (Some(w), Ok(g)) => check!(same_key(&r, w, g), "trimmed key"),
            (None, Err(_)) => (),
            _ => check!(false, "trimmed key differs"),
        }
    }
}
/// P12. Several hashers on a tuple. Parameter 0, 1: the hashers or all; 2: more bytes.
#[no_mangle]
pub extern "C" fn h_store_tuple() {
    let mut b = Reg::new();
    let (k, l) = (pick(0, 7) as usize, pick(1, 7) as usize);
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let t = if flag() { b.tuple(&[u, h]) } else { b.tuple(&[h, u]) };
    let r = b.done();
    let n = size(k) + size(l);
    let d = bytes(n + choice(param(2) + 1) as usize);
    let s: &[u8] = &d;
    let got = process_key_mapped::<&[u8], (), Meta>(&[HASHERS[k].clone(), HASHERS[l].clone()], &t.into(), &s, &mut (), 0, &r);
    let want = key(&r, &[k, l], t, &d, 0).ok();
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            cover(1);
            check!(same_key(&r, w, g), "key");
        }
        (None, Err(_)) => cover(2),
        (Some(_), Err(_)) => check!(false, "good key rejected"),
        (None, Ok(_)) => check!(false, "bad key accepted"),
    }
}
/// P12. Numbers of hashers that do or do not fit the key type.
#[no_mangle]
pub extern "C" fn h_store_shape() {
    let mut b = Reg::new();
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let t = match choice(7) {
        0 => b.tuple(&[]),
        1 => b.tuple(&[u]),
        2 => b.tuple(&[u, u]),
        3 => b.tuple(&[u, u, h]),
        4 => b.comp(&["m", "K"], vec![field(None, u, None), field(None, u, None)]),
        5 => b.array(u, 2),
        _ => u,
    };
    let r = b.done();
    let n = choice(5) as usize;
    let ks: Vec<usize> = (0..n).map(|i| if i < 2 { [6, 3, 4][choice(3) as usize] } else { 6 }).collect();
    let hs: Vec<K> = ks.iter().map(|k| HASHERS[*k].clone()).collect();
    let from: usize = ks.iter().map(|k| size(*k)).sum();
    let d = bytes(from + choice(6) as usize);
    let s: &[u8] = &d;
    let got = process_key_mapped::<&[u8], (), Meta>(&hs, &t.into(), &s, &mut (), 0, &r);
    let want = key(&r, &ks, t, &d, 0).ok();
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            cover(1);
            check!(same_key(&r, w, g), "key");
        }
        (None, Err(_)) => cover(2),
        (Some(_), Err(_)) => check!(false, "good key rejected"),
        (None, Ok(_)) => check!(false, "bad key accepted"),
    }
}
/// P21. Docs and type information of a storage entry, its key parts and value.
#[no_mangle]
pub extern "C" fn h_info_store() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let s = b.comp(&["m", "Id"], vec![field(Some("id"), u, None)]);
    let c = b.compact(u);
    let t = b.tuple(&[s, c]);
    let v = b.comp(&["m", "Data"], vec![field(Some("x"), s, Some("Id")), field(Some("y"), c, None)]);
    crate::p_hint::document(&mut b);
    let r = b.done();
    let (n, ty) = match choice(3) {
        0 => (0, StorageEntryType::Plain(v.into())),
        1 => (17, StorageEntryType::Map { hashers: vec![K::Twox128, K::Identity], key: t.into(), value: v.into() }),
        _ => (1, StorageEntryType::Map { hashers: vec![K::Identity], key: s.into(), value: v.into() }),
    };
    let mut e = entry(ty);
    let m = choice(3);
    if m > 0 {
        e.docs = if m == 1 { vec![] } else { strs(&["Only"]) };
    }
    let (d, x) = (bytes(32 + n), bytes(2));
    match run(&r, &e, &d, &x) {
        Ok(g) => {
            cover(1);
            check!(g.docs == spec::join(&e.docs), "docs of the entry");
            let info = |t: u32, d: &[u8], g: &substrate_parser::cards::ExtendedData| {
                let mut p = 0;
                match spec::decode(&r, t, d, &mut p, spec::TOP) {
                    Ok(w) => spec::same_ext(&r, &w, g, spec::INFO),
                    _ => false,
                }
            };
            check!(info(v, &x, &g.value), "information of the value");
            match &g.key {
                KeyData::Plain => check!(n == 0, "plain"),
                KeyData::SingleHash { content: KeyPart::Parsed(k) } => check!(n == 1 && info(s, &d[32..], k), "information of the key"),
                KeyData::TupleHash { content, info: i } => {
                    check!(spec::one_info(spec::ty(&r, t), i), "information of the whole key");
                    check!(matches!(&content[..], [_, KeyPart::Parsed(k)] if info(c, &d[48..], k)), "information of the second part");
                }
                _ => check!(false, "kind of key"),
            }
        }
        Err(_) => cover(2),
    }
}
