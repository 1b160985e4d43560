//! P09-P11: signable transactions, their extensions, unchecked extrinsics.
const FILE_ID: u64 = 2;
use crate::mk::*;
use crate::rt::*;
use crate::spec::{self, Bad, Sp, Why, BAD, C, H, N, R, V};
use alloc::{vec, vec::Vec};
use primitive_types::H256;
use scale_info::{PortableRegistry, TypeDefPrimitive as P};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{Call, ExtendedData};
use substrate_parser::traits::SignedExtensionMetadata;
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic;
use substrate_parser::MarkedData;

/// Reference: extensions are the `ty`s of all of them, then the additional parts.
pub fn exts(r: &PortableRegistry, es: &[SignedExtensionMetadata], d: &[u8], p: &mut usize) -> R<Vec<N>> {
    let mut out = vec![];
    exts_into(r, es, d, p, &mut out)?;
    Ok(out)
}
/// The same; `out` also gets what comes before the first that is none.
pub fn exts_into(r: &PortableRegistry, es: &[SignedExtensionMetadata], d: &[u8], p: &mut usize, out: &mut Vec<N>) -> R<()> {
    for e in es {
        out.push(spec::decode(r, e.ty.id, d, p, C { compact: false, cid: 0, h: spec::hint_ext(&e.identifier) })?);
    }
    for e in es {
        out.push(spec::decode(r, e.additional_signed.id, d, p, C { compact: false, cid: 0, h: spec::hint_ext(&e.identifier) })?);
    }
    Ok(())
}
/// Is `s` the canonical decimal form of `v`?
pub fn prints(v: u128, s: &[u8]) -> bool {
    if s.is_empty() || s.len() > 20 || (s.len() > 1 && s[0] == b'0') {
        return false;
    }
    let mut x = 0u128;
    let mut digits = true;
    for c in s {
        digits &= *c >= b'0' && *c <= b'9';
        x = x.wrapping_mul(10).wrapping_add((*c & 15) as u128);
    }
    digits && x == v
}
/// What the safety checks look at.
pub struct Looked {
    pub era: Vec<Era>,
    pub gen: Vec<Vec<u8>>,
    pub block: Vec<Vec<u8>>,
    pub ver: Vec<u128>,
}
pub fn look(ns: &[N]) -> Looked {
    let mut l = Looked { era: vec![], gen: vec![], block: vec![], ver: vec![] };
    for n in ns {
        let v = match &n.v {
            V::Comp(f) if f.len() == 1 => &f[0].n.v,
            V::Comp(_) => continue,
            v => v,
        };
        match v {
            V::Era(e) => l.era.push(*e),
            V::Fix(Sp::H256, b, H::Genesis) => l.gen.push(b.clone()),
            V::Fix(Sp::H256, b, H::BlockHash) => l.block.push(b.clone()),
            V::U(v, _, H::SpecVersion) => l.ver.push(*v),
            _ => (),
        }
    }
    l
}
/// Reference: do the decoded extensions pass the safety checks?
pub fn accept(ns: &[N], version: &[u8], genesis: Option<[u8; 32]>) -> bool {
    let Looked { era, gen, block, ver } = look(ns);
    if era.len() > 1 || gen.len() != 1 || block.len() > 1 || ver.len() != 1 {
        return false;
    }
    if !prints(ver[0], version) {
        return false;
    }
    if let Some(g) = genesis {
        if gen[0] != g {
            return false;
        }
    }
    if era.len() == 1 && era[0] == Era::Immortal && block.len() == 1 && block[0] != gen[0] {
        return false;
    }
    true
}
pub fn same_all(r: &PortableRegistry, want: &[N], got: &[ExtendedData]) -> bool {
    want.len() == got.len() && want.iter().zip(got.iter()).all(|(w, g)| spec::same_ext(r, w, g, spec::VALUES))
}
/// Reference: a call, shown as pallet, name and fields.
pub fn same_call(r: &PortableRegistry, want: &N, got: &Call) -> bool {
    match &want.v {
        V::Pallet { event: false, pallet, name, fields, .. } => {
            *pallet == got.0.pallet_name && *name == got.0.variant_name && spec::same_fields(r, fields, &got.0.fields, spec::VALUES)
        }
        _ => false,
    }
}
pub fn call_at(r: &PortableRegistry, id: u32, d: &[u8], p: &mut usize) -> R<N> {
    let n = spec::decode(r, id, d, p, spec::TOP)?;
    match n.v {
        V::Pallet { event: false, .. } => Ok(n),
        _ => Err(Bad { at: *p, why: Why::NotCall }),
    }
}
/// Calls of several shapes; the returned type is the outer enum.
pub fn calls(b: &mut Reg, nested: bool) -> u32 {
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let bytes = b.seq(u);
    let o = b.var(&["chain", "RuntimeCall"], vec![]);
    let c = b.compact(h);
    let mut vs = vec![
        variant("poke", 0, vec![]),
        variant("set", 1, vec![field(Some("value"), u, Some("u8")), field(Some("other"), c, Some("Balance"))]),
    ];
    if nested {
        vs.push(variant("remark", 2, vec![field(Some("remark"), bytes, None)]));
        vs.push(variant("wrap", 3, vec![field(Some("call"), o, None)]));
    }
    let inner = b.var(&["pallet_x", "pallet", "Call"], vs);
    let outer = vec![
        variant("X", 4, vec![field(None, inner, None)]),
        variant("Plain", 0, vec![field(None, u, None)]),
        variant("Bare", 1, vec![]),
    ];
    b.t[o as usize].type_def = scale_info::TypeDef::Variant(scale_info::TypeDefVariant { variants: outer });
    o
}
type Tx<'a, 'b> = MarkedData<'a, &'b [u8], (), Meta>;

/// P09. Parameter 0: extension list, 1: bytes before the genesis hash at most,
/// 2: longest call.
#[no_mangle]
pub extern "C" fn h_tx() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let u = b.prim(P::U8);
    let hash = b.bytes_struct(&["primitive_types", "H256"], 32);
    let call = calls(&mut b, true);
    let es = match pick(0, 4) {
        // everything fits into one hash and one byte
        0 => vec![ext("CheckSpecVersion", unit, u), ext("CheckGenesis", unit, hash)],
        1 => {
            let c = b.compact(u);
            let nonce = b.comp(&["m", "CheckNonce"], vec![field(None, c, None)]);
            vec![ext("CheckGenesis", unit, hash), ext("CheckNonce", nonce, unit), ext("CheckSpecVersion", unit, u)]
        }
        2 => {
            let s = b.seq(u);
            vec![ext("CheckSpecVersion", u, unit), ext("CheckGenesis", unit, hash), ext("Tail", unit, s)]
        }
        // never accepted: no genesis hash
        _ => vec![ext("CheckSpecVersion", u, unit)],
    };
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.call = call;
    m.exts = es.clone();
    m.version = "7".into();
    let n = choice(param(1) + 1) as usize;
    let tail = if param(0) == 3 { 0 } else { 32 };
    let d = bytes(n + tail);
    let given = if flag() { Some(arr::<32>()) } else { None };
    tx_case(&r, &m, &d, given, param(2) as usize);
}
/// The transaction `d` against the reference; calls longer than `longest` are
/// not looked at.
pub fn tx_case(r: &PortableRegistry, m: &Meta, d: &[u8], given: Option<[u8; 32]>, longest: usize) {
    let (call, es, g) = (m.call, &m.exts, given.map(H256));
    let version = m.version.as_bytes();
    let mut start = 0;
    let len = spec::compact(d, &mut start, 4);
    let s: &[u8] = d;
    let got = substrate_parser::parse_transaction::<&[u8], (), Meta>(&s, &mut (), m, g);
    let marked = Tx::mark(&s, &mut ());
    let end = match len {
        Ok(len) if (len as usize) <= d.len() - start => conc(start as u64 + len as u64) as usize,
        _ => {
            cover(2);
            check!(got.is_err(), "transaction without room for its call accepted");
            check!(marked.is_err(), "marked without room for the call");
            return;
        }
    };
    let mk = match marked {
        Ok(x) => x,
        Err(_) => {
            check!(false, "well-formed length prefix rejected");
            return;
        }
    };
    check!(mk.call_start() == start && mk.extensions_start() == end, "call bounds");
    check!(mk.data_no_extensions().len() == end && mk.data().len() == d.len(), "marked data");
    if end - start > longest {
        // long calls: only the split is looked at
        return;
    }
    // call: exactly the declared bytes
    let mut p = start;
    let want_call = call_at(r, call, &d[..end], &mut p).ok().filter(|_| p == end);
    let got_call = substrate_parser::decode_as_call::<&[u8], (), Meta>(&mk, &mut (), m);
    match (&want_call, &got_call) {
        (Some(w), Ok(g)) => {
            cover(3);
            check!(same_call(r, w, g), "call");
        }
        (None, Err(_)) => cover(4),
        _ => check!(false, "call accepted or rejected wrongly"),
    }
    // extensions: exactly the rest
    let mut q = end;
    let want = exts(r, es, d, &mut q).ok().filter(|e| q == d.len() && accept(e, version, given));
    match (&want, &got) {
        (Some(w), Ok(t)) => {
            cover(1);
            note(1, end as u64);
            check!(same_all(r, w, &t.extensions), "extensions");
            match (&got_call, &t.call_result) {
                (Ok(a), Ok(b)) => check!(a == b, "call of the parsed transaction"),
                (Err(_), Err(_)) => (),
                _ => check!(false, "call of the parsed transaction missing or made up"),
            }
        }
        (None, Err(_)) => cover(5),
        _ => check!(false, "transaction accepted or rejected wrongly"),
    }
    let only = substrate_parser::decode_extensions::<&[u8], (), Meta>(&mk, &mut (), m, g);
    match (&only, &got) {
        (Ok(a), Ok(b)) => check!(*a == b.extensions, "decode_extensions alone"),
        (Err(_), Err(_)) => (),
        _ => check!(false, "decode_extensions alone accepts otherwise"),
    }
    // the same without length prefix
    let s: &[u8] = &d[start..];
    if let (Ok(t), Ok(c)) = (&got, &got_call) {
        let un = substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&s, &mut (), m, g);
        cover(6);
        check!(matches!(&un, Ok(x) if x.call == *c && x.extensions == t.extensions), "same transaction without length prefix");
    }
}
/// P09. Without length prefix. Parameter 0: bytes before the hash at most,
/// 1: with calls of any length.
#[no_mangle]
pub extern "C" fn h_tx_unmarked() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let u = b.prim(P::U8);
    let hash = b.bytes_struct(&["primitive_types", "H256"], 32);
    let call = calls(&mut b, param(1) == 1);
    let es = vec![ext("CheckSpecVersion", u, unit), ext("CheckGenesis", unit, hash)];
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.call = call;
    m.exts = es.clone();
    m.version = "201".into();
    let d = bytes(choice(param(0) + 1) as usize + 32);
    let given = if flag() { Some(arr::<32>()) } else { None };
    let s: &[u8] = &d;
    let got = substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&s, &mut (), &m, given.map(H256));
    let mut p = 0;
    let want_call = call_at(&r, call, &d, &mut p);
    let mut pos = 0;
    let alone = substrate_parser::decode_as_call_unmarked::<&[u8], (), Meta>(&s, &mut pos, &mut (), &m);
    let wc = match (want_call, alone) {
        (Ok(w), Ok(g)) => {
            cover(2);
            check!(p == pos, "end of the call");
            check!(same_call(&r, &w, &g), "call");
            w
        }
        (Err(_), Err(_)) => {
            check!(got.is_err(), "transaction without call accepted");
            return;
        }
        _ => {
            check!(false, "call accepted or rejected wrongly");
            return;
        }
    };
    let mut q = p;
    let want = exts(&r, &es, &d, &mut q).ok().filter(|e| q == d.len() && accept(e, b"201", given));
    let mut pos = p;
    let only = substrate_parser::decode_extensions_unmarked::<&[u8], (), Meta>(&s, &mut pos, &mut (), &m, given.map(H256));
    match (&want, &got) {
        (Some(w), Ok(t)) => {
            cover(1);
            check!(same_call(&r, &wc, &t.call), "call");
            check!(same_all(&r, w, &t.extensions), "extensions");
            check!(matches!(&only, Ok(e) if *e == t.extensions) && pos == d.len(), "extensions alone");
        }
        (None, Err(_)) => {
            cover(3);
            check!(only.is_err(), "extensions alone accepted");
        }
        _ => check!(false, "transaction accepted or rejected wrongly"),
    }
}

/// Extensions by kind, with the bytes they need at most.
pub fn extension(b: &mut Reg, k: u64) -> (SignedExtensionMetadata, usize) {
    let unit = b.tuple(&[]);
    match k {
        0 => {
            let u = b.prim(P::U32);
            (ext("CheckSpecVersion", unit, u), 4)
        }
        1 => {
            let h = b.bytes_struct(&["primitive_types", "H256"], 32);
            (ext("CheckGenesis", unit, h), 32)
        }
        2 => {
            let h = b.bytes_struct(&["primitive_types", "H256"], 32);
            let e = b.var(&["sp_runtime", "generic", "era", "Era"], vec![]);
            let c = b.comp(&["m", "CheckMortality"], vec![field(None, e, Some("Era"))]);
            (ext("CheckMortality", c, h), 34)
        }
        3 => {
            let e = b.var(&["sp_runtime", "generic", "era", "Era"], vec![]);
            (ext("Other", e, unit), 2)
        }
        4 => {
            let h = b.bytes_struct(&["primitive_types", "H256"], 32);
            let c = b.comp(&["m", "W"], vec![field(None, h, None)]);
            (ext("CheckMortality", c, unit), 32)
        }
        5 => {
            let h = b.bytes_struct(&["primitive_types", "H256"], 32);
            let c = b.comp(&["m", "W"], vec![field(Some("hash"), h, None)]);
            let c = if flag() { b.comp(&["m", "W2"], vec![field(None, c, None)]) } else { c };
            (ext("CheckGenesis", c, unit), 32)
        }
        6 => {
            let u = b.prim(P::U8);
            let c = b.comp(&["m", "V"], vec![field(Some("spec_version"), u, None)]);
            (ext("Versioned", unit, c), 1)
        }
        7 => {
            let u = b.prim(P::U8);
            let e = b.var(&["sp_runtime", "generic", "era", "Era"], vec![]);
            let c = b.comp(&["m", "Two"], vec![field(Some("spec_version"), u, None), field(Some("era"), e, None)]);
            (ext("CheckMortality", c, unit), 3)
        }
        8 => {
            let u = b.prim(P::U16);
            let c = b.compact(u);
            (ext("CheckSpecVersion", c, unit), 1)
        }
        9 => {
            let u = b.prim(P::U32);
            (ext("CheckTxVersion", unit, u), 4)
        }
        _ => {
            let u = b.prim(P::U8);
            let h = b.bytes_struct(&["primitive_types", "H256"], 32);
            (ext("CheckNonce", u, h), 33)
        }
    }
}
pub const KINDS: u64 = 11;
fn extensions_case(ks: &[u64], version: &[u8]) {
    let mut b = Reg::new();
    let call = calls(&mut b, true);
    let mut es = vec![];
    let mut size = 0;
    for k in ks {
        let (e, n) = extension(&mut b, *k);
        es.push(e);
        size += n;
    }
    let eras = ks.iter().filter(|k| matches!(**k, 2 | 3 | 7)).count() as u64;
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.call = call;
    m.exts = es.clone();
    m.version = unsafe { alloc::string::String::from_utf8_unchecked(version.to_vec()) };
    // one byte less for every immortal era
    let less = if eras > 0 { choice(eras + 1) as usize } else { 0 };
    let d = bytes(size - less);
    let given = if flag() { Some(arr::<32>()) } else { None };
    let mut q = 0;
    let want = exts(&r, &es, &d, &mut q).ok().filter(|_| q == d.len());
    let ok = match &want {
        Some(w) => accept(w, version, given),
        None => false,
    };
    let mut pos = 0;
    let s: &[u8] = &d;
    let got = substrate_parser::decode_extensions_unmarked::<&[u8], (), Meta>(&s, &mut pos, &mut (), &m, given.map(H256));
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            cover(1);
            check!(ok, "extensions that must be refused are accepted");
            check!(same_all(&r, w, g), "extension values");
        }
        (None, Ok(_)) => check!(false, "undecodable extensions accepted"),
        (_, Err(_)) => {
            cover(2);
            check!(!ok, "good extensions refused")
        }
    }
    if ks.len() > 2 && got.is_err() {
        return;
    }
    // the same behind a call of one byte
    let mut e = vec![4, 0];
    e.extend_from_slice(&d);
    let s: &[u8] = &e;
    let t = substrate_parser::parse_transaction::<&[u8], (), Meta>(&s, &mut (), &m, given.map(H256));
    match (&got, &t) {
        (Ok(a), Ok(b)) => check!(*a == b.extensions, "extensions of the transaction"),
        (Err(_), Err(_)) => (),
        _ => check!(false, "transaction and extensions alone disagree"),
    }
    // and without the length of the call, where the call ends by itself
    let mut e = vec![4, 0];
    e.extend_from_slice(&d);
    let s: &[u8] = &e;
    let t = substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&s, &mut (), &m, given.map(H256));
    match (&got, &t) {
        (Ok(a), Ok(b)) => check!(*a == b.extensions, "extensions of the unmarked transaction"),
        (Err(_), Err(_)) => (),
        _ => check!(false, "unmarked transaction and extensions alone disagree"),
    }
}
/// P10. Parameter 0: number of extensions, 1: the first of them or all.
#[no_mangle]
pub extern "C" fn h_ext() {
    let n = param(0);
    let mut ks = vec![];
    for i in 0..n {
        ks.push(if i == 0 { pick(1, KINDS) } else { choice(KINDS) });
    }
    let version: &[u8] = if n > 2 || flag() { b"201" } else { b"16909060" };
    extensions_case(&ks, version);
}
/// P10. Spec version against every version string of the metadata of up to
/// as many characters as parameter 0, for a version of width 1 << parameter 1.
#[no_mangle]
pub extern "C" fn h_ext_version() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let u = b.prim([P::U8, P::U16, P::U32, P::U64, P::U128][param(1) as usize].clone());
    let h = b.bytes_struct(&["primitive_types", "H256"], 32);
    let es = vec![ext("CheckSpecVersion", unit, u), ext("CheckGenesis", unit, h)];
    let r = b.done();
    let n = choice(param(0) + 1) as usize;
    let version = bytes(n);
    for c in &version {
        assume(*c < 128);
    }
    let mut m = Meta::new(r.clone());
    m.exts = es.clone();
    m.version = unsafe { alloc::string::String::from_utf8_unchecked(version.clone()) };
    let w = 1usize << param(1);
    let mut d = bytes(if w == 16 { 2 } else { w });
    if w == 16 {
        // printing 128-bit numbers is too hard for the solver: two free bytes
        d.extend_from_slice(&[0; 14]);
    }
    d.extend_from_slice(&[5; 32]);
    let v = spec::le(&d[..w]);
    let mut pos = 0;
    let s: &[u8] = &d;
    let got = substrate_parser::decode_extensions_unmarked::<&[u8], (), Meta>(&s, &mut pos, &mut (), &m, None);
    cover(if got.is_ok() { 1 } else { 2 });
    check!(got.is_ok() == prints(v, &version), "spec version check");
}

/// P11. Parameter 0: longest data, 1: layout of the parts.
#[no_mangle]
pub extern "C" fn h_unchecked() {
    let mut b = Reg::new();
    let call = calls(&mut b, true);
    let unit = b.tuple(&[]);
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let (address, signature, extra) = match pick(1, 3) {
        0 => (u, h, unit),
        1 => {
            let v = b.seq(u);
            let c = b.compact(h);
            let a = b.var(&["sp_runtime", "MultiAddress"], vec![variant("Id", 0, vec![field(None, u, None)]), variant("Raw", 2, vec![field(None, v, None)])]);
            let n = b.comp(&["m", "CheckNonce"], vec![field(None, c, None)]);
            let x = b.tuple(&[n, unit]);
            (a, u, x)
        }
        _ => (unit, unit, unit),
    };
    let other = if flag() { call } else { b.comp(&["m", "NotACall"], vec![field(None, u, None)]) };
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.params = [address, other, signature, extra];
    m.call = unit;
    m.xt_version = [4u8, 5, 0, 127, 128][choice(5) as usize];
    let d = blob(param(0) as usize);
    unchecked_case(&r, &m, &d);
}
/// The extrinsic `d` against the reference.
pub fn unchecked_case(r: &PortableRegistry, m: &Meta, d: &[u8]) {
    let s: &[u8] = d;
    let got = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&s, &mut (), m);
    let want = unchecked(r, m, d);
    match (&want, &got) {
        (Ok((None, c, _)), Ok(UncheckedExtrinsic::Unsigned { call })) => {
            cover(1);
            check!(same_call(r, c, call), "call of an unsigned extrinsic");
        }
        (Ok((Some(parts), c, _)), Ok(UncheckedExtrinsic::Signed { address, signature, extra, call })) => {
            cover(2);
            check!(spec::same_ext(r, &parts[0], address, spec::VALUES), "address");
            check!(spec::same_ext(r, &parts[1], signature, spec::VALUES), "signature");
            check!(spec::same_ext(r, &parts[2], extra, spec::VALUES), "extra");
            check!(same_call(r, c, call), "call of a signed extrinsic");
        }
        (Err(_), Err(_)) => cover(3),
        // data after the call: see h_unchecked_rest
        (Ok((_, _, rest)), Err(_)) => check!(*rest > 0, "well-formed extrinsic rejected"),
        (Err(_), Ok(_)) => check!(false, "malformed extrinsic accepted"),
        _ => check!(false, "signed and unsigned confused"),
    }
}
/// P11. Data within the declared length must not be left over after the call.
#[no_mangle]
pub extern "C" fn h_unchecked_rest() {
    let mut b = Reg::new();
    let call = calls(&mut b, true);
    let u = b.prim(P::U8);
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.params = [u, call, u, u];
    let x = arr::<4>();
    let signed = flag();
    let d = if signed { vec![28, 0x84, x[0], x[1], x[2], 4, 0, x[3]] } else { vec![16, 4, 4, 0, x[0]] };
    let s: &[u8] = &d;
    let got = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&s, &mut (), &m);
    cover(1);
    check!(got.is_err(), "data after the call of an unchecked extrinsic is ignored");
}
/// Reference: the parts, the call, and how much data is left after it.
fn unchecked(r: &PortableRegistry, m: &Meta, d: &[u8]) -> R<(Option<Vec<N>>, N, usize)> {
    let mut p = 0;
    let n = spec::length(d, &mut p)?;
    if n != d.len() - p {
        return Err(BAD);
    }
    let v = spec::take(d, &mut p, 1)?[0];
    if v & 127 != m.xt_version {
        return Err(BAD);
    }
    let mut parts = None;
    if v & 128 != 0 {
        let mut ps = vec![];
        for t in [m.params[0], m.params[2], m.params[3]] {
            ps.push(spec::decode(r, t, d, &mut p, spec::TOP)?);
        }
        parts = Some(ps);
    }
    let c = call_at(r, m.params[1], d, &mut p)?;
    Ok((parts, c, d.len() - p))
}
