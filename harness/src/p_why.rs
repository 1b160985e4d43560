//! P22: an error says truly what is wrong, and where.
const FILE_ID: u64 = 10;
use crate::mk::*;
use crate::p_tx::{self, call_at, exts_into, look, Looked};
use crate::rt::*;
use crate::spec::{self, Bad, Why};
use alloc::{format, string::String, vec, vec::Vec};
use core::sync::atomic::{AtomicBool, Ordering::Relaxed};
use external_memory_tools::BufferError;
use primitive_types::H256;
use scale_info::{PortableRegistry, TypeDef, TypeDefPrimitive as P};
use substrate_parser::additional_types::Era;
use substrate_parser::error::*;

static WHY: AtomicBool = AtomicBool::new(false);
/// Are errors compared instead of values?
pub fn on() -> bool {
    WHY.load(Relaxed)
}

/// Has the type a compact form?
fn has_form(r: &PortableRegistry, mut id: u32) -> bool {
    loop {
        let t = spec::ty(r, id);
        if let Some(s) = spec::special(t) {
            use spec::Sp::*;
            return matches!(s, Perbill | Percent | Permill | Perquintill | PerU16);
        }
        match &t.type_def {
            TypeDef::Composite(x) if x.fields.is_empty() => return true,
            TypeDef::Composite(x) if x.fields.len() == 1 => id = x.fields[0].ty.id,
            TypeDef::Tuple(x) if x.fields.is_empty() => return true,
            TypeDef::Tuple(x) if x.fields.len() == 1 => id = x.fields[0].id,
            TypeDef::Primitive(P::U8 | P::U16 | P::U32 | P::U64 | P::U128) => return true,
            _ => return false,
        }
    }
}
/// Is this so? Types of the registry all refer to types that are there.
fn registry(r: &PortableRegistry, e: &RegistryInternalError) -> bool {
    use RegistryInternalError::*;
    let def = |id: u32| r.types.get(id as usize).map(|t| &t.ty.type_def);
    match e {
        UnexpectedCompactInsides { id } => matches!(def(*id), Some(TypeDef::Compact(x)) if !has_form(r, x.type_param.id)),
        NotBitOrderType { id } => match def(*id) {
            Some(TypeDef::BitSequence(x)) => {
                let o = spec::ty(r, x.bit_order_type.id);
                let known = matches!(o.path.segments.last().map(|s| s.as_str()), Some("Lsb0" | "Msb0"));
                !(known && matches!(o.type_def, TypeDef::Composite(_)))
            }
            _ => false,
        },
        NotBitStoreType { id } => match def(*id) {
            Some(TypeDef::BitSequence(x)) => {
                !matches!(spec::ty(r, x.bit_store_type.id).type_def, TypeDef::Primitive(P::U8 | P::U16 | P::U32 | P::U64))
            }
            _ => false,
        },
        TypeNotResolved { id } => def(*id).is_none(),
        // these registries have no cycles without data
        _ => false,
    }
}
/// The error tells the reason why the data `d` are not a value.
pub fn truth(r: &PortableRegistry, w: &Bad, g: &ParserError<()>, d: &[u8]) -> bool {
    match g {
        ParserError::Buffer(BufferError::DataTooShort { position, minimal_length }) => match w.why {
            // so many are needed, and are not there
            Why::Short(n) => *position >= w.at && *position <= d.len() && *minimal_length > d.len() - *position && *minimal_length as u64 <= w.at as u64 + n as u64 - *position as u64,
            _ => false,
        },
        ParserError::Buffer(BufferError::OutOfRange { position, total_length }) => *total_length == d.len() && *position > d.len(),
        ParserError::Buffer(BufferError::External(e)) => match *e {},
        ParserError::NoCompact { position } => w.why == Why::NoCompact && *position == w.at,
        ParserError::UnexpectedEnumVariant { position } => w.why == Why::NoVariant && *position == w.at,
        ParserError::TypeFailure { position, ty } => matches!(w.why, Why::Fails(t) if t == *ty) && *position == w.at,
        ParserError::Registry(RegistryError::Internal(e)) => registry(r, e),
        ParserError::Registry(RegistryError::External(e)) => match *e {},
        ParserError::SomeDataNotUsedBlob { .. } => false,
    }
}
#[inline(never)]
pub fn value(r: &PortableRegistry, id: u32, d: &[u8]) {
    let mut q = 0;
    let want = spec::decode(r, id, d, &mut q, spec::TOP);
    match (&want, &decode_all(r, id, d)) {
        (Ok(_), Err(ParserError::SomeDataNotUsedBlob { from })) => {
            cover(2);
            note(1, 998);
            check!(*from == q && q < d.len(), "rest of the data");
        }
        (Ok(_), Err(_)) => check!(false, "a value, maybe with a rest"),
        (Err(w), Err(g)) => {
            cover(2);
            note(1, 999);
            check!(truth(r, w, g, d), "reason of the error");
        }
        // values are the matter of other properties
        (_, Ok(_)) => cover(1),
    }
}
macro_rules! also {
    ($(fn $new:ident = $old:path),* $(,)?) => {$(
        #[no_mangle]
        pub extern "C" fn $new() {
            WHY.store(true, Relaxed);
            $old()
        }
    )*};
}
use crate::p_value as v;
use crate::p_mem as e;
also!(
    fn h_why_mem_shape = e::h_mem_shape,
    fn h_why_mem_special = e::h_mem_special,
    fn h_why_mem_bits = e::h_mem_bits,
    fn h_why_mem_enum = e::h_mem_enum,
    fn h_why_mem_tx = e::h_mem_tx,
    fn h_why_mem_unchecked = e::h_mem_unchecked,
    fn h_why_mem_store = e::h_mem_store,
    fn h_why_prim = v::h_prim,
    fn h_why_str = v::h_str,
    fn h_why_compact = v::h_compact,
    fn h_why_shape = v::h_shape,
    fn h_why_moved = v::h_locality,
    fn h_why_moved_more = v::h_local_more,
    fn h_why_set = v::h_set,
    fn h_why_variant = v::h_variant,
    fn h_why_bits = v::h_bits,
    fn h_why_bits_long = v::h_bits_long,
    fn h_why_era = v::h_era,
    fn h_why_special = v::h_special,
    fn h_why_multisig = v::h_multisig,
    fn h_why_pallet = v::h_pallet,
    fn h_why_nested_call = v::h_nested_call,
    fn h_why_bad = v::h_compact_bad,
);

/// Reference for signable transactions: the data, and what is expected of it.
struct Tx<'a> {
    r: &'a PortableRegistry,
    m: &'a Meta,
    /// Data up to the end of the call, and where the call starts.
    call: &'a [u8],
    start: usize,
    /// All of the data, and where extensions start.
    d: &'a [u8],
    end: usize,
    genesis: Option<[u8; 32]>,
}
type Signable = SignableError<(), Meta>;
/// An error about the call is right.
fn call_error(t: &Tx, e: &Signable, whole: bool) -> bool {
    let mut p = t.start;
    match (call_at(t.r, t.m.call, t.call, &mut p), e) {
        (Ok(_), SignableError::SomeDataNotUsedCall { from, to }) => whole && *from == p && *to == t.call.len() && p < *to,
        (Err(Bad { why: Why::NotCall, .. }), SignableError::NotACall(id)) => *id == t.m.call,
        (Err(w), SignableError::Parsing(g)) => truth(t.r, &w, g, t.call),
        _ => false,
    }
}
/// An error about the extensions is right.
fn exts_error(t: &Tx, e: &Signable) -> bool {
    let (mut q, mut ns) = (t.end, vec![]);
    let bad = exts_into(t.r, &t.m.exts, t.d, &mut q, &mut ns).err();
    // more than one is already more than one among the first
    let Looked { era, gen, block, ver } = look(&ns);
    let whole = bad.is_none();
    match e {
        SignableError::Parsing(g) => matches!(&bad, Some(w) if truth(t.r, w, g, t.d)),
        SignableError::SomeDataNotUsedExtensions { from } => whole && *from == q && q < t.d.len(),
        SignableError::ExtensionsList(x) => match x {
            ExtensionsError::EraTwice => era.len() > 1,
            ExtensionsError::BlockHashTwice => block.len() > 1,
            ExtensionsError::GenesisHashTwice => gen.len() > 1,
            ExtensionsError::SpecVersionTwice => ver.len() > 1,
            ExtensionsError::NoGenesisHash => whole && gen.is_empty(),
            ExtensionsError::NoSpecVersion => whole && ver.is_empty(),
        },
        SignableError::WrongSpecVersion { as_decoded, in_metadata } => {
            *in_metadata == t.m.version && as_decoded != in_metadata && ver.iter().any(|v| p_tx::prints(*v, as_decoded.as_bytes()))
        }
        SignableError::WrongGenesisHash { as_decoded, expected } => {
            t.genesis == Some(expected.0) && as_decoded != expected && gen.iter().any(|g| g[..] == as_decoded.0)
        }
        SignableError::ImmortalHashMismatch => {
            era.contains(&Era::Immortal) && gen.len() > 0 && block.iter().any(|b| *b != gen[0])
        }
        _ => false,
    }
}
fn slice(d: &[u8]) -> &[u8] {
    d
}
/// P22. Signable transactions. Parameter 0: extension list, 1: bytes at most.
#[no_mangle]
pub extern "C" fn h_why_tx() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let s = b.seq(u);
    let e = b.var(&["sp_runtime", "generic", "era", "Era"], vec![]);
    let call = p_tx::calls(&mut b, true);
    let call = if flag() { call } else { b.tuple(&[call]) };
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.call = call;
    m.exts = match pick(0, 5) {
        0 => vec![ext("CheckSpecVersion", unit, u), ext("CheckNonce", h, unit)],
        1 => vec![ext("CheckSpecVersion", u, u)],
        2 => vec![ext("A", s, e), ext("B", unit, u)],
        3 => vec![ext("A", e, unit), ext("CheckMortality", unit, e)],
        _ => vec![],
    };
    m.version = "7".into();
    let d = blob(param(1) as usize);
    let n = d.len();
    let mut start = 0;
    let len = spec::compact(&d, &mut start, 4);
    let got = substrate_parser::parse_transaction::<&[u8], (), Meta>(&slice(&d), &mut (), &m, None);
    let end = match len {
        Ok(len) if (len as usize) <= n - start => conc(start as u64 + len as u64) as usize,
        _ => {
            cover(2);
            check!(matches!(got, Err(SignableError::CutSignable)), "no room for the call");
            return;
        }
    };
    let t = Tx { r: &r, m: &m, call: &d[..end], start, d: &d, end, genesis: None };
    match &got {
        Err(e) => {
            cover(3);
            check!(exts_error(&t, e), "reason against the extensions");
        }
        Ok(x) => {
            if let Err(e) = &x.call_result {
                check!(call_error(&t, e, true), "reason against the call");
            }
        }
    }
    if let Ok(x) = substrate_parser::MarkedData::<&[u8], (), Meta>::mark(&slice(&d), &mut ()) {
        if let Err(e) = substrate_parser::decode_as_call::<&[u8], (), Meta>(&x, &mut (), &m) {
            cover(1);
            check!(call_error(&t, &e, true), "reason against the call");
        }
        if let Err(e) = substrate_parser::decode_extensions::<&[u8], (), Meta>(&x, &mut (), &m, None) {
            check!(exts_error(&t, &e), "reason against the extensions");
        }
    }
    // the same without length prefix
    let t = Tx { r: &r, m: &m, call: &d, start: 0, d: &d, end: 0, genesis: None };
    let mut pos = 0;
    match substrate_parser::decode_as_call_unmarked::<&[u8], (), Meta>(&slice(&d), &mut pos, &mut (), &m) {
        Err(e) => {
            check!(call_error(&t, &e, false), "reason against the call");
            if let Err(e) = substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&slice(&d), &mut (), &m, None) {
                check!(call_error(&t, &e, false), "reason against the transaction");
            }
        }
        Ok(_) => {
            let t = Tx { end: pos, ..t };
            if let Err(e) = substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&slice(&d), &mut (), &m, None) {
                cover(4);
                check!(exts_error(&t, &e), "reason against the extensions");
            }
        }
    }
}
/// P22. Extensions. Parameter 0: how many, 1: the first of them or all.
#[no_mangle]
pub extern "C" fn h_why_ext() {
    let mut b = Reg::new();
    let (mut es, mut size) = (vec![], 0);
    for i in 0..param(0) {
        let (e, n) = p_tx::extension(&mut b, if i == 0 { pick(1, p_tx::KINDS) } else { choice(p_tx::KINDS) });
        es.push(e);
        size += n;
    }
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.exts = es;
    m.version = "201".into();
    let d = bytes(size + choice(3) as usize - (size > 0) as usize);
    let genesis = if flag() { Some(arr::<32>()) } else { None };
    let t = Tx { r: &r, m: &m, call: &[], start: 0, d: &d, end: 0, genesis };
    let (mut q, mut ns) = (0, vec![]);
    let _ = exts_into(&r, &m.exts, &d, &mut q, &mut ns);
    for v in look(&ns).ver {
        // see h_why_version for others
        assume(v < 100 || v == 201);
    }
    let mut pos = 0;
    match substrate_parser::decode_extensions_unmarked::<&[u8], (), Meta>(&slice(&d), &mut pos, &mut (), &m, genesis.map(H256)) {
        Ok(_) => cover(1),
        Err(e) => {
            cover(2);
            check!(exts_error(&t, &e), "reason against the extensions");
        }
    }
}
/// P22. Unchecked extrinsics. Parameter 0: longest data.
#[no_mangle]
pub extern "C" fn h_why_unchecked() {
    let mut b = Reg::new();
    let call = p_tx::calls(&mut b, true);
    let unit = b.tuple(&[]);
    let u = b.prim(P::U8);
    let s = b.seq(u);
    let c = b.compact(u);
    let (address, signature, extra) = if flag() { (u, s, unit) } else { (s, unit, c) };
    let call = if flag() { call } else { b.comp(&["m", "NotACall"], vec![field(None, u, None)]) };
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.params = [address, call, signature, extra];
    m.xt_version = [4u8, 0, 128][choice(3) as usize];
    let d = blob(param(0) as usize);
    let got = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&slice(&d), &mut (), &m);
    let Err(e) = got else { return cover(1) };
    cover(2);
    check!(unchecked_error(&r, &m, &d, &e), "reason against the extrinsic");
}
fn unchecked_error(r: &PortableRegistry, m: &Meta, d: &[u8], e: &UncheckedExtrinsicError<(), Meta>) -> bool {
    use UncheckedExtrinsicError::*;
    let mut p = 0;
    let n = match spec::length(d, &mut p) {
        Ok(n) => n,
        Err(_) => return matches!(e, FormatNoCompact),
    };
    let left = d.len() - p;
    if n > left {
        let w = Bad { at: p, why: Why::Short(n) };
        return matches!(e, Parsing(g) if truth(r, &w, g, d));
    }
    if n < left {
        return matches!(e, Parsing(ParserError::SomeDataNotUsedBlob { from }) if *from == p + n);
    }
    let v = match spec::take(d, &mut p, 1) {
        Ok(v) => v[0],
        Err(w) => return matches!(e, Parsing(g) if truth(r, &w, g, d)),
    };
    if v & 127 != m.xt_version {
        return matches!(e, VersionMismatch { version_byte, version } if *version_byte == v && *version == m.xt_version);
    }
    if v & 128 != 0 {
        for t in [m.params[0], m.params[2], m.params[3]] {
            if let Err(w) = spec::decode(r, t, d, &mut p, spec::TOP) {
                return matches!(e, Parsing(g) if truth(r, &w, g, d));
            }
        }
    }
    match call_at(r, m.params[1], d, &mut p) {
        Err(Bad { why: Why::NotCall, .. }) => matches!(e, UnexpectedCallTy { call_ty_id } if *call_ty_id == m.params[1]),
        Err(w) => matches!(e, Parsing(g) if truth(r, &w, g, d)),
        // data after the call: see P11
        Ok(_) => matches!(e, Parsing(ParserError::SomeDataNotUsedBlob { from }) if *from == p && p < d.len()),
    }
}
/// P22. Versions of any size. Parameter 0: digits.
#[no_mangle]
pub extern "C" fn h_why_version() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let k = choice(5) as usize;
    let u = b.prim(PRIMS[3 + k].clone());
    let h = b.bytes_struct(&["primitive_types", "H256"], 32);
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.exts = vec![ext("CheckSpecVersion", u, unit), ext("CheckGenesis", unit, h)];
    m.version = name(0, 3);
    let x = crate::p_meta::digits(k);
    let mut d = number(&x).to_le_bytes()[..1 << k].to_vec();
    d.extend_from_slice(&[5; 32]);
    let g = choice(3);
    let genesis = [None, Some(H256([5; 32])), Some(H256([6; 32]))][g as usize];
    let mut pos = 0;
    match substrate_parser::decode_extensions_unmarked::<&[u8], (), Meta>(&slice(&d), &mut pos, &mut (), &m, genesis) {
        Ok(_) => cover(1),
        Err(SignableError::WrongSpecVersion { as_decoded, in_metadata }) => {
            cover(2);
            check!(as_decoded.as_bytes() == &x[..], "decoded version");
            check!(in_metadata == m.version && in_metadata != as_decoded, "version of the metadata");
        }
        Err(SignableError::WrongGenesisHash { as_decoded, expected }) => {
            cover(3);
            check!(g == 2 && as_decoded.0 == [5; 32] && expected.0 == [6; 32], "genesis hash");
        }
        Err(_) => check!(false, "another error"),
    }
}

/// An error about a storage key of a map, from position `from` on, is right.
fn key_error(r: &PortableRegistry, ks: &[usize], ty: u32, d: &[u8], from: usize, e: &StorageError<()>) -> bool {
    let Err(w) = crate::p_storage::key(r, ks, ty, d, from) else { return false };
    match e {
        StorageError::ParsingKey(g) => truth(r, &w, g, d),
        StorageError::KeyPartHashMismatch => w.why == Why::Mismatch,
        StorageError::KeyPartsUnused => w.why == Why::Rest,
        StorageError::MultipleHashesNotATuple => w.why == Why::NotTuple,
        StorageError::MultipleHashesNumberMismatch => w.why == Why::Count,
        _ => false,
    }
}
/// An error about all of a value is right.
fn whole_error(r: &PortableRegistry, id: u32, d: &[u8], e: &ParserError<()>) -> bool {
    let mut q = 0;
    match spec::decode(r, id, d, &mut q, spec::TOP) {
        Ok(_) => matches!(e, ParserError::SomeDataNotUsedBlob { from } if *from == q && q < d.len()),
        Err(w) => truth(r, &w, e, d),
    }
}
/// P22. Storage entries. Parameter 0: hasher of the key, 7: plain, 8: two of
/// them, 9: any number of them.
#[no_mangle]
pub extern "C" fn h_why_store() {
    use crate::p_storage::{entry, run, size, HASHERS};
    use frame_metadata::v14::StorageEntryType as T;
    let mut b = Reg::new();
    let (u, s) = (b.prim(P::U8), b.prim(P::Str));
    let k = pick(0, 10) as usize;
    let (ks, kt) = match k {
        7 => (None, 0),
        8 => (Some(vec![choice(7) as usize, choice(7) as usize]), b.tuple(&[u, s])),
        9 => {
            let t = match choice(6) {
                0 => b.tuple(&[]),
                1 => b.tuple(&[u]),
                2 => b.tuple(&[u, u, s]),
                3 => b.array(u, 2),
                4 => b.comp(&["m", "K"], vec![field(None, s, None), field(None, u, None)]),
                _ => s,
            };
            (Some((0..choice(4)).map(|i| if i == 1 { 3 } else { 6 }).collect()), t)
        }
        _ => (Some(vec![k]), if flag() { s } else { b.bytes_struct(&["sp_core", "crypto", "AccountId32"], 32) }),
    };
    let vt = if k != 9 && flag() { s } else { b.prim(P::Bool) };
    let r = b.done();
    let ty = match &ks {
        None => T::Plain(vt.into()),
        Some(ks) => T::Map { hashers: ks.iter().map(|k| HASHERS[*k].clone()).collect(), key: kt.into(), value: vt.into() },
    };
    let n = match &ks {
        None => 0,
        Some(ks) => ks.iter().map(|k| size(*k)).sum::<usize>() + choice(5) as usize,
    };
    let d = bytes(32 + n - if k == 9 { 0 } else { choice(3) as usize });
    let v = if k == 9 { bytes(1) } else { blob(2) };
    match run(&r, &entry(ty), &d, &v) {
        Ok(_) => cover(1),
        Err(e) => {
            cover(2);
            let right = match &e {
                StorageError::KeyShorterThanPrefix => d.len() < 32,
                StorageError::PlainKeyExceedsPrefix => ks.is_none() && d.len() > 32,
                StorageError::ParsingValue(g) => whole_error(&r, vt, &v, g),
                e => match &ks {
                    Some(ks) => d.len() >= 32 && key_error(&r, ks, kt, &d, 32, e),
                    None => false,
                },
            };
            check!(right, "reason against the entry");
        }
    }
    if let (Some(ks), true) = (ks, d.len() >= 32) {
        let hs: Vec<_> = ks.iter().map(|k| HASHERS[*k].clone()).collect();
        let s = &d[32..];
        let got = substrate_parser::storage_data::process_key_mapped::<&[u8], (), Meta>(&hs, &kt.into(), &slice(s), &mut (), 0, &r);
        if let Err(e) = got {
            cover(3);
            check!(key_error(&r, &ks, kt, s, 0, &e), "reason against the trimmed key");
        }
    }
}

/// Names and versions that a version constant holds: at the top, and in all.
fn said(fs: &[spec::F]) -> [usize; 4] {
    let mut n = [0; 4];
    for f in fs {
        match &f.n.v {
            spec::V::Str(_, spec::H::SpecName) => n[0] += 1,
            spec::V::U(_, _, spec::H::SpecVersion) => n[1] += 1,
            spec::V::Comp(x) => {
                let m = said(x);
                n[2] += m[2];
                n[3] += m[3];
                continue;
            }
            _ => continue,
        }
    }
    n[2] += n[0];
    n[3] += n[1];
    n
}
/// An error about the version is right. `System` and, in it, `Version` stand
/// there once at most.
fn version_error(r: &PortableRegistry, system: Option<Option<(&[u8], u32)>>, e: &MetaVersionErrorPallets) -> bool {
    use MetaVersionErrorPallets::*;
    let (v, id) = match system {
        None => return matches!(e, NoSystemPallet),
        Some(None) => return matches!(e, NoVersionInConstants),
        Some(Some(x)) => x,
    };
    let mut p = 0;
    if r.resolve(id).is_none() {
        return matches!(e, RuntimeVersionNotDecodeable);
    }
    let n = match spec::decode(r, id, v, &mut p, spec::TOP) {
        Ok(n) if p == v.len() => n,
        _ => return matches!(e, RuntimeVersionNotDecodeable),
    };
    match n.v {
        spec::V::Comp(fs) => {
            let s = said(&fs);
            match e {
                NoSpecNameIdentifier => s[0] == 0,
                NoSpecVersionIdentifier => s[1] == 0,
                SpecNameIdentifierTwice => s[2] > 1,
                SpecVersionIdentifierTwice => s[3] > 1,
                _ => false,
            }
        }
        _ => matches!(e, UnexpectedRuntimeVersionFormat),
    }
}
pub fn versions(a: &frame_metadata::v14::RuntimeMetadataV14, b: &frame_metadata::v15::RuntimeMetadataV15) {
    use substrate_parser::traits::AsMetadata;
    let x = AsMetadata::<()>::spec_name_version(a);
    let y = AsMetadata::<()>::spec_name_version(b);
    let system = a.pallets.iter().find(|p| p.name == "System");
    let c = system.map(|p| p.constants.iter().find(|c| c.name == "Version").map(|c| (&c.value[..], c.ty.id)));
    match x {
        Ok(_) => cover(1),
        Err(e) => {
            cover(2);
            check!(matches!(&e, MetaStructureErrorV14::Version(e) if version_error(&a.types, c, e)), "reason against the metadata");
        }
    }
    if let Err(e) = y {
        check!(version_error(&a.types, c, &e), "reason against the V15 metadata");
    }
}
/// An error about the extrinsic type `t` is right: it is `there`, it is an
/// extrinsic, and has these parameters.
pub fn params_error(e: &MetaStructureErrorV14, t: u32, there: bool, extrinsic: bool, w: &[Option<u32>]) -> bool {
    use MetaStructureErrorV14::*;
    match e {
        ExtrinsicTypeNotResolved(RegistryInternalError::TypeNotResolved { id }) => !there && *id == t,
        UnexpectedExtrinsicType { extrinsic_ty_id } => there && !extrinsic && *extrinsic_ty_id == t,
        NoAddressParam => extrinsic && w[0].is_none(),
        NoCallParam => extrinsic && w[1].is_none(),
        NoSignatureParam => extrinsic && w[2].is_none(),
        NoExtraParam => extrinsic && w[3].is_none(),
        _ => false,
    }
}
use crate::{p_meta as mt, p_total as tt};
also!(
    fn h_why_meta = mt::h_version,
    fn h_why_meta_type = mt::h_version_type,
    fn h_why_meta_place = mt::h_version_place,
    fn h_why_params = mt::h_params,
    fn h_why_any = tt::h_any,
);

/// Is `s` somewhere in `t`, and, when it is a number, not in a longer one?
fn says(t: &str, s: &[u8], number: bool) -> bool {
    let t = t.as_bytes();
    let digit = |c: u8| (c >= b'0') & (c <= b'9');
    let mut found = false;
    let mut i = 0;
    while i + s.len() <= t.len() {
        let mut same = true;
        for k in 0..s.len() {
            same &= t[i + k] == s[k];
        }
        if number {
            same &= i == 0 || !digit(t[i - 1]);
            same &= i + s.len() == t.len() || !digit(t[i + s.len()]);
        }
        found |= same;
        i += 1;
    }
    found
}
fn num(k: usize) -> (Vec<u8>, u128) {
    let x = crate::p_meta::digits(k);
    let n = number(&x);
    (x, n)
}
fn hex(b: &[u8]) -> Vec<u8> {
    let h = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
    b.iter().flat_map(|x| [h(x >> 4), h(x & 15)]).collect()
}
/// P22. The text of an error says what the error holds. Parameter 0: which.
#[no_mangle]
pub extern "C" fn h_why_text() {
    type S = SignableError<(), Meta>;
    type U = UncheckedExtrinsicError<(), Meta>;
    type T = StorageError<()>;
    use RegistryInternalError as I;
    use {ParserError as E, RegistryError as R};
    // numbers of the platform
    const W: usize = if usize::BITS == 64 { 3 } else { 2 };
    cover(1);
    match pick(0, 9) {
        0 => {
            let (x, n) = num(W);
            let position = n as usize;
            let e: E<()> = match choice(4) {
                0 => E::NoCompact { position },
                1 => E::SomeDataNotUsedBlob { from: position },
                2 => E::UnexpectedEnumVariant { position },
                _ => E::TypeFailure { position, ty: "a name" },
            };
            let t = format!("{e}");
            check!(says(&t, &x, true), "position");
            check!(!matches!(e, E::TypeFailure { .. }) || says(&t, b"a name", false), "type");
        }
        1 => {
            let (x, n) = num(2);
            let id = n as u32;
            let e = match choice(6) {
                0 => I::CyclicMetadata { id },
                1 => I::NotBitOrderType { id },
                2 => I::NotBitStoreType { id },
                3 => I::TypeNotResolved { id },
                4 => I::UnexpectedCompactInsides { id },
                _ => I::UnexpectedExtrinsicType { extrinsic_ty_id: id },
            };
            let t = format!("{e}");
            check!(says(&t, &x, true), "type id");
            let p: E<()> = E::Registry(R::Internal(e));
            check!(says(&format!("{p}"), t.as_bytes(), false), "text inside");
        }
        2 => {
            let ((x, n), (y, k)) = (num(W), num(W));
            assume(n <= k);
            let t = format!("{}", S::SomeDataNotUsedCall { from: n as usize, to: k as usize });
            check!(says(&t, &x, true) && says(&t, &y, true), "both ends");
        }
        3 => {
            let (x, n) = num(2);
            let t = if flag() { format!("{}", S::NotACall(n as u32)) } else { format!("{}", U::UnexpectedCallTy { call_ty_id: n as u32 }) };
            check!(says(&t, &x, true), "type id");
        }
        4 => {
            let ((x, n), (y, k)) = (num(0), num(0));
            let t = format!("{}", U::VersionMismatch { version_byte: n as u8, version: k as u8 });
            check!(says(&t, &x, true) && says(&t, &y, true), "both versions");
        }
        5 => {
            let (a, b) = (arr::<32>(), [0xabu8; 32]);
            let (a, b) = if flag() { (a, b) } else { (b, a) };
            let t = format!("{}", S::WrongGenesisHash { as_decoded: H256(a), expected: H256(b) });
            check!(says(&t, &hex(&a), false) && says(&t, &hex(&b), false), "both hashes");
        }
        6 => {
            let (a, b) = (name(1, 4), name(1, 4));
            let t = format!("{}", S::WrongSpecVersion { as_decoded: a.clone(), in_metadata: b.clone() });
            check!(says(&t, a.as_bytes(), false) && says(&t, b.as_bytes(), false), "both versions");
        }
        7 => {
            // wrapped errors
            let (x, n) = num(W);
            let p = || E::NoCompact { position: n as usize };
            let t = match choice(7) {
                0 => format!("{}", S::Parsing(p())),
                1 => format!("{}", U::Parsing(p())),
                2 => format!("{}", T::ParsingKey(p())),
                3 => format!("{}", T::ParsingValue(p())),
                4 => format!("{}", S::SomeDataNotUsedExtensions { from: n as usize }),
                5 => format!("{}", E::<()>::Buffer(BufferError::DataTooShort { position: n as usize, minimal_length: 1 })),
                _ => format!("{}", E::<()>::Buffer(BufferError::OutOfRange { position: 1, total_length: n as usize })),
            };
            check!(says(&t, &x, true), "number inside");
        }
        _ => {
            let (x, n) = num(2);
            let extrinsic_ty_id = n as u32;
            let t = match choice(2) {
                0 => format!("{}", MetaStructureErrorV14::UnexpectedExtrinsicType { extrinsic_ty_id }),
                _ => format!("{}", MetaStructureErrorV14::ExtrinsicTypeNotResolved(I::TypeNotResolved { id: extrinsic_ty_id })),
            };
            check!(says(&t, &x, true), "number inside");
        }
    }
}
/// P22. Errors of the same kind read differently.
#[no_mangle]
pub extern "C" fn h_why_distinct() {
    use {ExtensionsError as X, MetaStructureErrorV14 as M, MetaVersionErrorPallets as V, StorageError as T};
    type S = SignableError<(), Meta>;
    let ts: Vec<String> = match choice(4) {
        0 => [X::BlockHashTwice, X::EraTwice, X::GenesisHashTwice, X::NoGenesisHash, X::NoSpecVersion, X::SpecVersionTwice]
            .into_iter()
            .map(|x| {
                let t = format!("{x}");
                check!(format!("{}", S::ExtensionsList(x)) == t, "text inside");
                t
            })
            .chain([format!("{}", S::CutSignable), format!("{}", S::ImmortalHashMismatch)])
            .collect(),
        1 => [
            V::NoSpecNameIdentifier,
            V::NoSpecVersionIdentifier,
            V::NoSystemPallet,
            V::NoVersionInConstants,
            V::RuntimeVersionNotDecodeable,
            V::SpecNameIdentifierTwice,
            V::SpecVersionIdentifierTwice,
            V::UnexpectedRuntimeVersionFormat,
        ]
        .into_iter()
        .map(|x| {
            let t = format!("{x}");
            check!(says(&format!("{}", M::Version(x)), t.as_bytes(), false), "text inside");
            t
        })
        .collect(),
        2 => [M::NoAddressParam, M::NoCallParam, M::NoExtraParam, M::NoSignatureParam].iter().map(|x| format!("{x}")).collect(),
        _ => [
            T::<()>::KeyPartHashMismatch,
            T::KeyPartsUnused,
            T::KeyShorterThanPrefix,
            T::MultipleHashesNotATuple,
            T::MultipleHashesNumberMismatch,
            T::PlainKeyExceedsPrefix,
        ]
        .iter()
        .map(|x| format!("{x}"))
        .collect(),
    };
    cover(1);
    for i in 0..ts.len() {
        for j in 0..i {
            check!(ts[i] != ts[j], "two errors, one text");
        }
    }
}
