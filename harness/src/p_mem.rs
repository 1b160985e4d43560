//! P15: data and metadata in external memory, and faults of that memory.
const FILE_ID: u64 = 6;
use crate::gen;
use crate::mk::*;
use crate::p_storage::{entry, HASHERS};
use crate::p_tx::calls;
use crate::p_value::special;
use crate::rt::*;
use alloc::{vec, vec::Vec};
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use frame_metadata::v14::{StorageEntryType, StorageHasher as K};
use primitive_types::H256;
use scale_info::{PortableRegistry, TypeDefPrimitive as P};
use substrate_parser::cards::{ExtendedData, ParsedData};
use substrate_parser::error::*;
use substrate_parser::traits::*;
use substrate_parser::MarkedData;

/// Memory that answers `at` accesses. From then on every access fails, or just
/// the next one.
#[derive(Debug)]
pub struct Mem {
    data: Vec<u8>,
    second: Vec<u8>,
    n: u64,
    at: u64,
    once: bool,
    failed: bool,
}
#[derive(Debug, Eq, PartialEq)]
pub struct Fault;
impl core::fmt::Display for Fault {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl ExternalMemory for Mem {
    type ExternalMemoryError = Fault;
}
impl Mem {
    fn new(data: &[u8], second: &[u8], once: bool) -> Self {
        let at = byte() as u64;
        Mem { data: data.to_vec(), second: second.to_vec(), n: 0, at, once, failed: false }
    }
    fn fails(&mut self) -> bool {
        let f = if self.once { self.n == self.at } else { self.n >= self.at };
        self.n += 1;
        self.failed |= f;
        f
    }
}
/// Data that lives in the memory.
pub struct Buf {
    second: bool,
    len: usize,
}
impl AddressableBuffer<Mem> for Buf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, position: usize, slice_len: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        if m.fails() {
            return Err(BufferError::External(Fault));
        }
        if position > self.len {
            return Err(BufferError::OutOfRange { position, total_length: self.len });
        }
        if slice_len > self.len - position {
            return Err(BufferError::DataTooShort { position, minimal_length: slice_len });
        }
        let d = if self.second { &m.second } else { &m.data };
        Ok(d[position..position + slice_len].to_vec())
    }
    fn limit_length(&self, len: usize) -> Result<Self, BufferError<Mem>> {
        if len > self.len {
            return Err(BufferError::DataTooShort { position: 0, minimal_length: len });
        }
        Ok(Buf { second: self.second, len })
    }
}
/// Types that live in the memory.
#[derive(Clone, Debug)]
pub struct Types(PortableRegistry);
impl ResolveType<Mem> for Types {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<Typ, RegistryError<Mem>> {
        if m.fails() {
            return Err(RegistryError::External(Fault));
        }
        match self.0.resolve(id) {
            Some(t) => Ok(t.clone()),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}
#[derive(Clone, Debug)]
pub struct XMeta(Meta);
impl AsMetadata<Mem> for XMeta {
    type TypeRegistry = Types;
    type MetaStructureError = NoMeta;
    fn types(&self) -> Types {
        Types(self.0.reg.clone())
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, NoMeta> {
        AsMetadata::<()>::spec_name_version(&self.0)
    }
    fn call_ty(&self) -> Result<Sym, NoMeta> {
        AsMetadata::<()>::call_ty(&self.0)
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, NoMeta> {
        AsMetadata::<()>::signed_extensions(&self.0)
    }
}
impl AsCompleteMetadata<Mem> for XMeta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, NoMeta> {
        AsCompleteMetadata::<()>::extrinsic_type_params(&self.0)
    }
    fn extrinsic_version(&self) -> Result<u8, NoMeta> {
        AsCompleteMetadata::<()>::extrinsic_version(&self.0)
    }
}
/// Errors that can tell of a failing memory.
trait Told {
    fn told(&self) -> bool;
    /// Some errors have no place for it.
    fn may_hide(&self) -> bool {
        false
    }
}
impl Told for ParserError<Mem> {
    fn told(&self) -> bool {
        matches!(self, ParserError::Buffer(BufferError::External(Fault)) | ParserError::Registry(RegistryError::External(Fault)))
    }
}
impl Told for SignableError<Mem, XMeta> {
    fn told(&self) -> bool {
        matches!(self, SignableError::Parsing(e) if e.told())
    }
    fn may_hide(&self) -> bool {
        matches!(self, SignableError::CutSignable)
    }
}
impl Told for UncheckedExtrinsicError<Mem, XMeta> {
    fn told(&self) -> bool {
        matches!(self, UncheckedExtrinsicError::Parsing(e) if e.told())
    }
    fn may_hide(&self) -> bool {
        matches!(self, UncheckedExtrinsicError::FormatNoCompact)
    }
}
impl Told for StorageError<Mem> {
    fn told(&self) -> bool {
        matches!(self, StorageError::ParsingKey(e) | StorageError::ParsingValue(e) if e.told())
    }
}
/// What holds of a result from memory, given the result without.
fn compare<T: PartialEq, A, B: Told>(want: &Result<T, A>, got: &Result<T, B>, m: &Mem) {
    if crate::p_why::on() {
        if let Err(e) = got {
            if !m.failed {
                cover(5);
                check!(!e.told(), "tells of a failing memory that did not fail");
            } else if want.is_ok() {
                cover(6);
                check!(e.told() || e.may_hide(), "does not tell that the memory failed");
            }
        }
        return;
    }
    match (want, got) {
        (Ok(a), Ok(b)) => {
            if m.failed {
                cover(4);
            } else {
                cover(1);
            }
            check!(a == b, "another value");
        }
        (Err(_), Err(_)) => cover(2),
        (Ok(_), Err(_)) => {
            cover(3);
            check!(m.failed, "rejected without fault");
        }
        (Err(_), Ok(_)) => check!(false, "accepted"),
    }
}
/// Did a call or event come out as an ordinary enum, here or in a call inside?
fn demoted(a: &ExtendedData, b: &ExtendedData) -> bool {
    match (&a.data, &b.data) {
        (ParsedData::Call(_) | ParsedData::Event(_), ParsedData::Variant(_)) => true,
        (ParsedData::Call(a), ParsedData::Call(b)) => a.0.fields.iter().zip(&b.0.fields).any(|(a, b)| demoted(&a.data, &b.data)),
        _ => false,
    }
}
fn known<A, B>(want: &Result<ExtendedData, A>, got: &Result<ExtendedData, B>) {
    if let (Ok(a), Ok(b)) = (want, got) {
        check!(!demoted(a, b), "a failing access turns a call or event into an ordinary enum");
    }
}
pub fn value(r: PortableRegistry, t: u32, d: &[u8], once: bool) {
    let mut m = Mem::new(d, &[], once);
    let b = Buf { second: false, len: d.len() };
    let x = Types(r.clone());
    if flag() {
        let want = decode_all(&r, t, d);
        let got = substrate_parser::decode_all_as_type::<Buf, Mem, XMeta>(&t.into(), &b, &mut m, &x);
        known(&want, &got);
        compare(&want, &got, &m);
    } else {
        let (mut p, mut q) = (0, 0);
        let want = decode_at(&r, t, d, &mut p);
        let got = substrate_parser::decode_as_type_at_position::<Buf, Mem, XMeta>(&t.into(), &b, &mut m, &x, &mut q);
        known(&want, &got);
        compare(&want, &got, &m);
        check!(got.is_err() || p == q, "another position");
    }
}
/// P15. Values of the type grammar. Parameter 0: leaf or constructor, 1: depth
/// of the rest, 2: data at most, 3: one access fails instead of all further ones.
#[no_mangle]
pub extern "C" fn h_mem_shape() {
    let mut b = Reg::new();
    let t = if param(0) == 1 { gen::node(&mut b, choice(gen::NODES), param(1)) } else { gen::gen(&mut b, param(1)) };
    let r = b.done();
    let d = blob(param(2) as usize);
    value(r, t, &d, param(3) == 1);
}
/// P15. Types with a dedicated representation. Parameter 0: which, 1: one
/// access fails.
#[no_mangle]
pub extern "C" fn h_mem_special() {
    let mut b = Reg::new();
    let (path, n) = special(pick(0, 22));
    let x = b.bytes_struct(path, n);
    let t = if flag() { b.comp(&["m", "Holder"], vec![field(Some("a"), x, None)]) } else { x };
    let r = b.done();
    let d = bytes(n as usize - choice(2) as usize);
    value(r, t, &d, param(1) == 1);
}
/// P15. Bit sequences. Parameter 0: store, 1: order, 2: data at most.
#[no_mangle]
pub extern "C" fn h_mem_bits() {
    let mut b = Reg::new();
    let s = b.prim([P::U8, P::U16, P::U32, P::U64][pick(0, 4) as usize].clone());
    let o = b.comp(&["bitvec", "order", ["Lsb0", "Msb0"][pick(1, 2) as usize]], vec![]);
    let t = b.bits(s, o);
    let r = b.done();
    let d = blob(param(2) as usize);
    value(r, t, &d, false);
}
pub fn enums(b: &mut Reg, k: u64) -> (u32, usize) {
    let u = b.prim(P::U8);
    match k {
        0 => {
            let a = b.array(u, 64);
            let s = b.comp(&["sp_core", "sr25519", "Signature"], vec![field(None, a, None)]);
            let f = vec![field(None, s, Some("sr25519::Signature"))];
            let t = b.var(&["sp_runtime", "MultiSignature"], vec![variant("Sr25519", 1, f), variant("Other", 0, vec![field(None, u, None)])]);
            (t, 65)
        }
        1 => (calls(b, true), 4),
        _ => {
            let e = b.var(&["pallet_x", "pallet", "Event"], vec![variant("Done", 3, vec![field(None, u, None)])]);
            (b.var(&["chain", "RuntimeEvent"], vec![variant("X", 0, vec![field(None, e, None)]), variant("Y", 1, vec![])]), 3)
        }
    }
}
/// P15. Signatures, calls and events. Parameter 0: which.
#[no_mangle]
pub extern "C" fn h_mem_enum() {
    let mut b = Reg::new();
    let (t, n) = enums(&mut b, pick(0, 3));
    let r = b.done();
    let d = if n < 9 { blob(n) } else { bytes(n - choice(2) as usize) };
    value(r, t, &d, false);
}
/// P15. The same when a single access fails.
#[no_mangle]
pub extern "C" fn h_mem_enum_once() {
    let mut b = Reg::new();
    let (t, n) = enums(&mut b, pick(0, 3));
    let r = b.done();
    let d = if n < 9 { blob(n) } else { bytes(n) };
    value(r, t, &d, true);
}
/// P15. Signable transactions. Parameter 0: bytes in addition to a hash, 1: entry point, 2: with a genesis hash given.
#[no_mangle]
pub extern "C" fn h_mem_tx() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let u = b.prim(P::U8);
    let hash = b.bytes_struct(&["primitive_types", "H256"], 32);
    let c = b.compact(u);
    let nonce = b.comp(&["m", "CheckNonce"], vec![field(None, c, None)]);
    let call = calls(&mut b, param(1) != 1);
    let r = b.done();
    let mut m = Meta::new(r);
    m.call = call;
    m.version = "7".into();
    m.exts = vec![ext("CheckSpecVersion", unit, u), ext("CheckGenesis", unit, hash)];
    m.exts.push(ext("CheckNonce", nonce, unit));
    let n = param(0) as usize;
    let d = bytes(n + 32);
    for (i, x) in d.iter().enumerate().take(n + 3) {
        // short calls, and spec versions of one digit
        assume(if i == 0 && param(1) != 1 { x & 3 == 0 && *x <= 4 * n as u8 } else { *x < 8 });
    }
    let g = if param(2) == 1 { Some(H256(arr())) } else { None };
    let x = XMeta(m.clone());
    let mut mem = Mem::new(&d, &[], false);
    let s: &[u8] = &d;
    match param(1) {
        0 => {
            let want = substrate_parser::parse_transaction::<&[u8], (), Meta>(&s, &mut (), &m, g);
            let got = substrate_parser::parse_transaction::<Buf, Mem, XMeta>(&Buf { second: false, len: d.len() }, &mut mem, &x, g);
            match (want, got) {
                (Ok(a), Ok(b)) => {
                    check!(a.extensions == b.extensions, "extensions");
                    compare(&a.call_result, &b.call_result, &mem);
                }
                (a, b) => compare(&a.map(|_| ()), &b.map(|_| ()), &mem),
            }
        }
        1 => {
            let want = substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&s, &mut (), &m, g).map(|t| (t.call, t.extensions));
            let got = substrate_parser::parse_transaction_unmarked::<Buf, Mem, XMeta>(&Buf { second: false, len: d.len() }, &mut mem, &x, g).map(|t| (t.call, t.extensions));
            compare(&want, &got, &mem);
        }
        _ => {
            let buf = Buf { second: false, len: d.len() };
            let want = MarkedData::<&[u8], (), Meta>::mark(&s, &mut ());
            let got = MarkedData::<Buf, Mem, XMeta>::mark(&buf, &mut mem);
            match (want, got) {
                (Ok(a), Ok(b)) => {
                    check!(a.call_start() == b.call_start() && a.extensions_start() == b.extensions_start(), "bounds");
                    let c = substrate_parser::decode_as_call::<&[u8], (), Meta>(&a, &mut (), &m);
                    let e = substrate_parser::decode_as_call::<Buf, Mem, XMeta>(&b, &mut mem, &x);
                    compare(&c, &e, &mem);
                    let c = substrate_parser::decode_extensions::<&[u8], (), Meta>(&a, &mut (), &m, g);
                    let e = substrate_parser::decode_extensions::<Buf, Mem, XMeta>(&b, &mut mem, &x, g);
                    compare(&c, &e, &mem);
                }
                (a, b) => compare(&a.map(|_| ()), &b.map(|_| ()), &mem),
            }
        }
    }
}
/// P15. Unchecked extrinsics. Parameter 0: data at most.
#[no_mangle]
pub extern "C" fn h_mem_unchecked() {
    let mut b = Reg::new();
    let call = calls(&mut b, true);
    let unit = b.tuple(&[]);
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let r = b.done();
    let mut m = Meta::new(r);
    m.params = [u, call, h, unit];
    let d = blob(param(0) as usize);
    let s: &[u8] = &d;
    let mut mem = Mem::new(&d, &[], false);
    let want = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&s, &mut (), &m);
    let got = substrate_parser::decode_as_unchecked_extrinsic::<Buf, Mem, XMeta>(&Buf { second: false, len: d.len() }, &mut mem, &XMeta(m));
    compare(&want, &got, &mem);
}
/// P15. Storage entries. Parameter 0: hasher, 7 for a plain entry, 8 for two
/// hashers; 1: one access fails.
#[no_mangle]
pub extern "C" fn h_mem_store() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let s = b.prim(P::Str);
    let pair = b.tuple(&[u, s]);
    let r = b.done();
    let k = pick(0, 9);
    let size = [16, 32, 16, 16, 32, 8, 0];
    let (ty, n) = match k {
        7 => (StorageEntryType::Plain(s.into()), 0),
        8 => {
            let (i, j) = (choice(7) as usize, choice(7) as usize);
            (StorageEntryType::Map { hashers: vec![HASHERS[i].clone(), HASHERS[j].clone()], key: pair.into(), value: s.into() }, size[i] + size[j] + 3)
        }
        _ => (StorageEntryType::Map { hashers: vec![HASHERS[k as usize].clone()], key: u.into(), value: s.into() }, size[k as usize] + 1),
    };
    let key = bytes(32 + n + choice(2) as usize - 1);
    let v = blob(2);
    let e = entry(ty);
    let (ks, vs): (&[u8], &[u8]) = (&key, &v);
    let mut mem = Mem::new(&key, &v, param(1) == 1);
    let want = substrate_parser::decode_as_storage_entry::<&[u8], (), Meta>(&ks, &vs, &mut (), &e, &r);
    let (kb, vb) = (Buf { second: false, len: key.len() }, Buf { second: true, len: v.len() });
    let got = substrate_parser::decode_as_storage_entry::<Buf, Mem, XMeta>(&kb, &vb, &mut mem, &e, &Types(r.clone()));
    compare(&want, &got, &mem);
    let _ = K::Identity;
}
