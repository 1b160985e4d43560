//! P23: the numbers of types are references and nothing else.
//! The ids are any distinct 32-bit numbers, all symbolic.
const FILE_ID: u64 = 12;
use crate::gen;
use crate::mk::*;
use crate::p_mem::enums;
use crate::p_storage::{entry, HASHERS};
use crate::p_tx::calls;
use crate::p_value::special;
use crate::rt::*;
use alloc::{vec, vec::Vec};
use frame_metadata::v14::StorageEntryType;
use primitive_types::H256;
use scale_info::{PortableRegistry, TypeDef, TypeDefPrimitive as P};
use substrate_parser::cards::ExtendedData;
use substrate_parser::error::*;
use substrate_parser::storage_data::{KeyData, KeyPart};
use substrate_parser::traits::*;
use substrate_parser::MarkedData;

/// Another numbering of the types of a registry.
#[derive(Clone, Debug)]
pub struct Far {
    types: Vec<Typ>,
    /// The new ids; the last one is of no type.
    ids: Vec<u32>,
    /// Which type stands for each; equal types may have become one.
    rep: Vec<usize>,
}
fn refs(t: &mut Typ, f: &mut dyn FnMut(&mut Sym)) {
    for p in &mut t.type_params {
        if let Some(x) = &mut p.ty {
            f(x);
        }
    }
    match &mut t.type_def {
        TypeDef::Composite(x) => x.fields.iter_mut().for_each(|x| f(&mut x.ty)),
        TypeDef::Variant(x) => x.variants.iter_mut().for_each(|v| v.fields.iter_mut().for_each(|x| f(&mut x.ty))),
        TypeDef::Sequence(x) => f(&mut x.type_param),
        TypeDef::Array(x) => f(&mut x.type_param),
        TypeDef::Compact(x) => f(&mut x.type_param),
        TypeDef::Tuple(x) => x.fields.iter_mut().for_each(f),
        TypeDef::BitSequence(x) => {
            f(&mut x.bit_store_type);
            f(&mut x.bit_order_type);
        }
        TypeDef::Primitive(_) => {}
    }
}
impl Far {
    /// Any numbering; of `merge`, with one number for equal types.
    pub fn new(r: &PortableRegistry, merge: bool) -> Far {
        let mut types: Vec<Typ> = r.types.iter().map(|t| t.ty.clone()).collect();
        let n = types.len();
        let mut rep: Vec<usize> = (0..n + 1).collect();
        let mut again = merge;
        while again {
            again = false;
            for i in 0..n {
                if rep[i] == i {
                    if let Some(j) = (0..i).find(|j| rep[*j] == *j && types[*j] == types[i]) {
                        rep.iter_mut().filter(|x| **x == i).for_each(|x| *x = j);
                        again = true;
                    }
                }
            }
            for t in &mut types {
                refs(t, &mut |x| *x = (rep[(x.id as usize).min(n)] as u32).into());
            }
        }
        let b = bytes(4 * (n + 1));
        let ids: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let mut ok = true;
        for i in 0..n + 1 {
            for j in 0..i {
                ok &= ids[i] != ids[j];
            }
        }
        assume(ok);
        for t in &mut types {
            refs(t, &mut |x| *x = ids[(x.id as usize).min(n)].into());
        }
        Far { types, ids, rep }
    }
    /// The new id.
    pub fn id(&self, id: u32) -> u32 {
        self.ids[self.rep[(id as usize).min(self.types.len())]]
    }
}
impl ResolveType<()> for Far {
    fn resolve_ty(&self, id: u32, _: &mut ()) -> Result<Typ, RegistryError<()>> {
        match (0..self.types.len()).find(|i| self.ids[*i] == id) {
            Some(i) => Ok(self.types[i].clone()),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}
#[derive(Clone, Debug)]
pub struct FarMeta {
    m: Meta,
    far: Far,
}
// asked for by the comparison of errors, which hold no metadata
impl PartialEq for FarMeta {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl FarMeta {
    fn new(m: &Meta, merge: bool) -> FarMeta {
        let far = Far::new(&m.reg, merge);
        let mut m = m.clone();
        m.call = far.id(m.call);
        for p in &mut m.params {
            *p = far.id(*p);
        }
        for e in &mut m.exts {
            e.ty = far.id(e.ty.id).into();
            e.additional_signed = far.id(e.additional_signed.id).into();
        }
        FarMeta { m, far }
    }
}
impl AsMetadata<()> for FarMeta {
    type TypeRegistry = Far;
    type MetaStructureError = NoMeta;
    fn types(&self) -> Far {
        self.far.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, NoMeta> {
        AsMetadata::<()>::spec_name_version(&self.m)
    }
    fn call_ty(&self) -> Result<Sym, NoMeta> {
        AsMetadata::<()>::call_ty(&self.m)
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, NoMeta> {
        AsMetadata::<()>::signed_extensions(&self.m)
    }
}
impl AsCompleteMetadata<()> for FarMeta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, NoMeta> {
        AsCompleteMetadata::<()>::extrinsic_type_params(&self.m)
    }
    fn extrinsic_version(&self) -> Result<u8, NoMeta> {
        AsCompleteMetadata::<()>::extrinsic_version(&self.m)
    }
}
fn parser(f: &Far, e: ParserError<()>) -> ParserError<()> {
    use RegistryInternalError as I;
    let i = |id: u32| f.id(id);
    match e {
        ParserError::Registry(RegistryError::Internal(e)) => ParserError::Registry(RegistryError::Internal(match e {
            I::CyclicMetadata { id } => I::CyclicMetadata { id: i(id) },
            I::NotBitOrderType { id } => I::NotBitOrderType { id: i(id) },
            I::NotBitStoreType { id } => I::NotBitStoreType { id: i(id) },
            I::TypeNotResolved { id } => I::TypeNotResolved { id: i(id) },
            I::UnexpectedCompactInsides { id } => I::UnexpectedCompactInsides { id: i(id) },
            e => e,
        })),
        e => e,
    }
}
fn signable(f: &Far, e: SignableError<(), Meta>) -> SignableError<(), FarMeta> {
    use SignableError as E;
    match e {
        E::CutSignable => E::CutSignable,
        E::ExtensionsList(e) => E::ExtensionsList(e),
        E::ImmortalHashMismatch => E::ImmortalHashMismatch,
        E::MetaStructure(e) => E::MetaStructure(e),
        E::NotACall(id) => E::NotACall(f.id(id)),
        E::Parsing(e) => E::Parsing(parser(f, e)),
        E::SomeDataNotUsedCall { from, to } => E::SomeDataNotUsedCall { from, to },
        E::SomeDataNotUsedExtensions { from } => E::SomeDataNotUsedExtensions { from },
        E::WrongGenesisHash { as_decoded, expected } => E::WrongGenesisHash { as_decoded, expected },
        E::WrongSpecVersion { as_decoded, in_metadata } => E::WrongSpecVersion { as_decoded, in_metadata },
    }
}
fn unchecked(f: &Far, e: UncheckedExtrinsicError<(), Meta>) -> UncheckedExtrinsicError<(), FarMeta> {
    use UncheckedExtrinsicError as E;
    match e {
        E::FormatNoCompact => E::FormatNoCompact,
        E::MetaStructure(e) => E::MetaStructure(e),
        E::Parsing(e) => E::Parsing(parser(f, e)),
        E::VersionMismatch { version_byte, version } => E::VersionMismatch { version_byte, version },
        E::UnexpectedCallTy { call_ty_id } => E::UnexpectedCallTy { call_ty_id: f.id(call_ty_id) },
    }
}
fn same<T: PartialEq, E: PartialEq>(want: &Result<T, E>, got: &Result<T, E>) {
    match (want, got) {
        (Ok(a), Ok(b)) => {
            cover(1);
            check!(a == b, "another value under other numbers of types");
        }
        (Err(a), Err(b)) => {
            cover(2);
            check!(a == b, "another error under other numbers of types");
        }
        (Ok(_), Err(_)) => check!(false, "rejected under other numbers of types"),
        (Err(_), Ok(_)) => check!(false, "accepted under other numbers of types"),
    }
}
fn value(r: PortableRegistry, t: u32, d: &[u8], merge: bool) {
    let f = Far::new(&r, merge);
    let (mut p, mut q) = (0, 0);
    let want: Result<ExtendedData, _> = decode_at(&r, t, d, &mut p).map_err(|e| parser(&f, e));
    let got = substrate_parser::decode_as_type_at_position::<&[u8], (), FarMeta>(&f.id(t).into(), &d, &mut (), &f, &mut q);
    same(&want, &got);
    check!(got.is_err() || p == q, "another position under other numbers of types");
}
/// P23. Values of the type grammar. Parameter 0: leaf or constructor, 1: depth
/// of the rest, 2: data at most, 3: equal types become one.
#[no_mangle]
pub extern "C" fn h_ids_shape() {
    let mut b = Reg::new();
    let t = if param(0) == 1 { gen::node(&mut b, choice(gen::NODES), param(1)) } else { gen::gen(&mut b, param(1)) };
    let r = b.done();
    let d = blob(param(2) as usize);
    value(r, t, &d, param(3) == 1);
}
/// P23. Types with a dedicated representation, in a set and as fields.
/// Parameter 0: which, 1: equal types become one.
#[no_mangle]
pub extern "C" fn h_ids_special() {
    let mut b = Reg::new();
    let (path, n) = special(pick(0, 22));
    let x = b.bytes_struct(path, n);
    let y = b.bytes_struct(path, n);
    let t = match choice(3) {
        0 => b.comp(&["m", "Holder"], vec![field(Some("a"), x, None), field(Some("b"), y, Some("Balance"))]),
        1 => b.array(y, 2),
        _ => x,
    };
    let r = b.done();
    let d = bytes(2 * n as usize - choice(2) as usize);
    value(r, t, &d, param(1) == 1);
}
/// P23. Signatures, calls and events. Parameter 0: which, 1: equal types
/// become one, 2: data at most.
#[no_mangle]
pub extern "C" fn h_ids_enum() {
    let mut b = Reg::new();
    let (t, n) = enums(&mut b, pick(0, 3));
    let r = b.done();
    let d = if n < 9 { blob(param(2) as usize) } else { bytes(n - choice(2) as usize) };
    value(r, t, &d, param(1) == 1);
}
/// P23. Types that lead back to themselves, to nothing, or cannot be what they
/// say; and such that only come close. Parameter 0: which, 1: equal types
/// become one.
#[no_mangle]
pub extern "C" fn h_ids_odd() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let none = 99;
    let link = |b: &mut Reg, t: u32, to: u32| b.t[t as usize].type_def = TypeDef::Composite(scale_info::TypeDefComposite { fields: vec![field(None, to, None)] });
    let t = match pick(0, 12) {
        // cycles
        0 => {
            let a = b.comp(&["m", "A"], vec![]);
            let t = b.tuple(&[a]);
            let t = b.array(t, 1);
            let t = b.comp(&["m", "B"], vec![field(Some("b"), t, None)]);
            link(&mut b, a, t);
            [a, t][choice(2) as usize]
        }
        1 => {
            let a = b.comp(&["m", "A"], vec![]);
            let t = b.compact(a);
            link(&mut b, a, t);
            [a, t][choice(2) as usize]
        }
        // recursive through data
        2 => {
            let a = b.var(&["m", "List"], vec![]);
            let t = b.tuple(&[u, a]);
            let vs = vec![variant("Nil", 0, vec![]), variant("Cons", 1, vec![field(None, t, None)])];
            b.t[a as usize].type_def = TypeDef::Variant(scale_info::TypeDefVariant { variants: vs });
            [a, t][choice(2) as usize]
        }
        3 => {
            let a = b.comp(&["m", "A"], vec![]);
            let t = b.seq(a);
            link(&mut b, a, t);
            a
        }
        // nothing there
        4 => [none, b.seq(none), b.array(none, 1), b.compact(none), b.tuple(&[u, none])][choice(5) as usize],
        5 => {
            let f = vec![variant("A", 0, vec![field(None, u, None)]), variant("B", 1, vec![field(None, none, None)])];
            let v = b.var(&["m", "E"], f);
            b.option(v)
        }
        // bits of no store or order
        6 => {
            let o = b.comp(&["bitvec", "order", ["Lsb0", "Other"][choice(2) as usize]], vec![]);
            let s = b.prim([P::U128, P::U8][choice(2) as usize].clone());
            b.bits([s, o, none][choice(3) as usize], [o, s, none][choice(3) as usize])
        }
        // no compact
        7 => {
            let s = b.prim([P::Str, P::I8, P::Bool][choice(3) as usize].clone());
            let two = b.tuple(&[u, u]);
            let c = b.comp(&["m", "Two"], vec![field(None, u, None), field(None, s, None)]);
            let t = b.compact([s, two, c][choice(3) as usize]);
            b.comp(&["m", "H"], vec![field(None, t, None)])
        }
        // the same type more than once, side by side and below itself
        8 => {
            let p = b.tuple(&[u, u]);
            let q = b.tuple(&[p, p]);
            let s = b.comp(&["m", "S"], vec![field(Some("a"), p, None), field(Some("b"), q, None), field(Some("c"), u, Some("Balance"))]);
            b.array(s, 2)
        }
        // newtypes in newtypes
        9 => {
            let mut t = b.prim(P::U32);
            for _ in 0..4 {
                t = b.comp(&["m", "New"], vec![field(None, t, None)]);
            }
            [b.compact(t), b.seq(t), t][choice(3) as usize]
        }
        // types that refer to others in their parameters only
        10 => {
            let t = b.comp(&["m", "P"], vec![field(None, u, None)]);
            b.params(t, &[("T", Some(t)), ("U", Some(none)), ("V", None)]);
            b.option(t)
        }
        // equal but for their names, docs
        _ => {
            let x = b.prim(P::U16);
            let p = b.comp(&["m", "X"], vec![field(Some("x"), u, None)]);
            let q = b.comp(&["m", "X"], vec![field(Some("x"), u, Some("Balance"))]);
            let w = b.comp(&["m", "Y"], vec![field(Some("x"), u, None)]);
            let z = b.comp(&["m", "X"], vec![field(Some("x"), x, None)]);
            b.docs(w, &["w"]);
            let f = [p, q, w, z][choice(4) as usize];
            b.tuple(&[f, p, z])
        }
    };
    let r = b.done();
    let d = blob(5);
    value(r, t, &d, param(1) == 1);
}
/// P23. Signable transactions. Parameter 0: bytes in addition to a hash, 1:
/// entry point, 2: with a genesis hash given, 3: equal types become one.
#[no_mangle]
pub extern "C" fn h_ids_tx() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let u = b.prim(P::U8);
    let hash = b.bytes_struct(&["primitive_types", "H256"], 32);
    let c = b.compact(u);
    let nonce = b.comp(&["m", "CheckNonce"], vec![field(None, c, None)]);
    let call = calls(&mut b, param(1) != 1);
    let r = b.done();
    let mut m = Meta::new(r);
    m.call = if flag() { call } else { [u, 99][choice(2) as usize] };
    m.version = "7".into();
    m.exts = vec![ext("CheckSpecVersion", unit, u), ext("CheckGenesis", unit, hash)];
    m.exts.push(ext("CheckNonce", [nonce, 99][choice(2) as usize], unit));
    let n = param(0) as usize;
    let d = bytes(n + 32);
    for (i, x) in d.iter().enumerate().take(n + 3) {
        // short calls, and spec versions of one digit
        assume(if i == 0 && param(1) != 1 { x & 3 == 0 && *x <= 4 * n as u8 } else { *x < 8 });
    }
    let g = if param(2) == 1 { Some(H256(arr())) } else { None };
    let x = FarMeta::new(&m, param(3) == 1);
    let f = &x.far;
    let s: &[u8] = &d;
    match param(1) {
        0 => {
            let want = substrate_parser::parse_transaction::<&[u8], (), Meta>(&s, &mut (), &m, g);
            let got = substrate_parser::parse_transaction::<&[u8], (), FarMeta>(&s, &mut (), &x, g);
            match (want, got) {
                (Ok(a), Ok(b)) => {
                    check!(a.extensions == b.extensions, "extensions");
                    same(&a.call_result.map_err(|e| signable(f, e)), &b.call_result);
                }
                (a, b) => same(&a.map(|_| ()).map_err(|e| signable(f, e)), &b.map(|_| ())),
            }
        }
        1 => {
            let want = substrate_parser::parse_transaction_unmarked::<&[u8], (), Meta>(&s, &mut (), &m, g).map(|t| (t.call, t.extensions));
            let got = substrate_parser::parse_transaction_unmarked::<&[u8], (), FarMeta>(&s, &mut (), &x, g).map(|t| (t.call, t.extensions));
            same(&want.map_err(|e| signable(f, e)), &got);
        }
        _ => {
            let want = MarkedData::<&[u8], (), Meta>::mark(&s, &mut ());
            let got = MarkedData::<&[u8], (), FarMeta>::mark(&s, &mut ());
            match (want, got) {
                (Ok(a), Ok(b)) => {
                    check!(a.call_start() == b.call_start() && a.extensions_start() == b.extensions_start(), "bounds");
                    let c = substrate_parser::decode_as_call::<&[u8], (), Meta>(&a, &mut (), &m);
                    let e = substrate_parser::decode_as_call::<&[u8], (), FarMeta>(&b, &mut (), &x);
                    same(&c.map_err(|e| signable(f, e)), &e);
                    let c = substrate_parser::decode_extensions::<&[u8], (), Meta>(&a, &mut (), &m, g);
                    let e = substrate_parser::decode_extensions::<&[u8], (), FarMeta>(&b, &mut (), &x, g);
                    same(&c.map_err(|e| signable(f, e)), &e);
                }
                (a, b) => same(&a.map(|_| ()).map_err(|e| signable(f, e)), &b.map(|_| ())),
            }
        }
    }
}
/// P23. Unchecked extrinsics. Parameter 0: data at most, 1: equal types become
/// one.
#[no_mangle]
pub extern "C" fn h_ids_unchecked() {
    let mut b = Reg::new();
    let call = calls(&mut b, true);
    let unit = b.tuple(&[]);
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let r = b.done();
    let mut m = Meta::new(r);
    m.params = match choice(4) {
        0 => [u, call, h, unit],
        1 => [u, h, h, unit],
        2 => [99, call, h, unit],
        _ => [u, call, 99, 99],
    };
    let d = blob(param(0) as usize);
    let s: &[u8] = &d;
    let x = FarMeta::new(&m, param(1) == 1);
    let want = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&s, &mut (), &m);
    let got = substrate_parser::decode_as_unchecked_extrinsic::<&[u8], (), FarMeta>(&s, &mut (), &x);
    same(&want.map_err(|e| unchecked(&x.far, e)), &got);
}
/// P23. Storage entries. Parameter 0: hasher, 7 for a plain entry, 8 for two
/// hashers; 1: equal types become one.
#[no_mangle]
pub extern "C" fn h_ids_store() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let w = b.prim(P::U8);
    let s = b.prim(P::Str);
    let pair = b.tuple(&[u, w]);
    let r = b.done();
    let f = Far::new(&r, param(1) == 1);
    let k = pick(0, 9);
    let size = [16, 32, 16, 16, 32, 8, 0];
    let plain = |value: u32| StorageEntryType::Plain(value.into());
    let map = |hs: &[usize], key: u32, value: u32| StorageEntryType::Map {
        hashers: hs.iter().map(|i| HASHERS[*i].clone()).collect(),
        key: key.into(),
        value: value.into(),
    };
    let s = [s, 99][choice(2) as usize];
    let (near, far, n) = match k {
        7 => (plain(s), plain(f.id(s)), 0),
        8 => {
            let h = [choice(7) as usize, choice(7) as usize];
            (map(&h, pair, s), map(&h, f.id(pair), f.id(s)), size[h[0]] + size[h[1]] + 2)
        }
        _ => {
            let key = [u, pair, 99][choice(3) as usize];
            (map(&[k as usize], key, s), map(&[k as usize], f.id(key), f.id(s)), size[k as usize] + 2)
        }
    };
    let key = bytes(32 + n - if n > 0 { choice(2) as usize } else { 0 });
    let v = blob(2);
    let (ks, vs): (&[u8], &[u8]) = (&key, &v);
    let want = substrate_parser::decode_as_storage_entry::<&[u8], (), Meta>(&ks, &vs, &mut (), &entry(near), &r);
    let got = substrate_parser::decode_as_storage_entry::<&[u8], (), FarMeta>(&ks, &vs, &mut (), &entry(far), &f);
    let want = want
        .map(|mut s| {
            let parts: Vec<&mut KeyPart> = match &mut s.key {
                KeyData::SingleHash { content, .. } => vec![content],
                KeyData::TupleHash { content, .. } => content.iter_mut().collect(),
                _ => vec![],
            };
            for p in parts {
                if let KeyPart::Hash(h) = p {
                    h.type_id = f.id(h.type_id);
                }
            }
            s
        })
        .map_err(|e| match e {
            StorageError::ParsingKey(e) => StorageError::ParsingKey(parser(&f, e)),
            StorageError::ParsingValue(e) => StorageError::ParsingValue(parser(&f, e)),
            e => e,
        });
    same(&want, &got);
}
/// P23. The same metadata with its types in another order and behind others.
/// Parameter 0: how many stand before, 1: bytes of transactions.
#[no_mangle]
pub extern "C" fn h_ids_place() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let u = b.prim(P::U8);
    let (s, w) = (b.prim(P::Str), b.prim(P::U32));
    let bytes_ty = b.seq(u);
    let hash = b.bytes_struct(&["primitive_types", "H256"], 32);
    let call = calls(&mut b, false);
    let version = b.comp(&["sp_version", "RuntimeVersion"], vec![field(Some("spec_name"), s, None), field(Some("spec_version"), w, None)]);
    let x = b.comp(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"], vec![field(None, bytes_ty, None)]);
    b.params(x, &[("Address", Some(u)), ("Call", Some(call)), ("Signature", Some(hash)), ("Extra", Some(unit))]);
    let n = b.t.len() as u32;
    let pad = param(0) as u32;
    let (turn, back) = (choice(n as u64) as u32, flag());
    let place = |i: u32| pad + (if back { n - 1 - i } else { i } + turn) % n;
    let mut far = Reg::new();
    for _ in 0..pad + n {
        far.prim(P::I64);
    }
    for i in 0..n {
        let mut t = b.t[i as usize].clone();
        refs(&mut t, &mut |x| *x = place(x.id).into());
        far.t[place(i) as usize] = t;
    }
    let value = || vec![12, b'a', b'b', b'c', 7, 0, 0, 0];
    let make = |r: Reg, f: &dyn Fn(u32) -> u32| {
        let ps = [("Balances", vec![]), ("System", vec![("Version", f(version), value())])];
        let es = [("CheckSpecVersion", f(unit), f(w)), ("CheckGenesis", f(unit), f(hash)), ("CheckMore", f(u), f(unit))];
        crate::p_meta::both(r.done(), &ps, f(x), 4, [f(u), f(call), f(hash), f(unit)], &es)
    };
    let (a14, a15) = make(b, &|i| i);
    let (b14, b15) = make(far, &place);
    let k = param(1) as usize;
    let d = bytes(k + 36);
    for (i, x) in d.iter().enumerate().take(k) {
        assume(if i == 0 { x & 3 == 0 && *x <= 4 * k as u8 } else { *x < 8 });
    }
    over(&a14, &b14, &place, &d);
    over(&a15, &b15, &place, &d);
}
fn over<M: AsCompleteMetadata<()>>(a: &M, b: &M, place: &dyn Fn(u32) -> u32, d: &[u8]) {
    check!(a.spec_name_version().ok() == b.spec_name_version().ok(), "version of the same metadata in another order");
    check!(a.spec_name_version().is_ok(), "version");
    match (a.call_ty(), b.call_ty()) {
        (Ok(x), Ok(y)) => check!(place(x.id) == y.id, "call type of the same metadata in another order"),
        _ => check!(false, "call type"),
    }
    match (a.extrinsic_type_params(), b.extrinsic_type_params()) {
        (Ok(x), Ok(y)) => check!(
            place(x.address_ty.id) == y.address_ty.id && place(x.signature_ty.id) == y.signature_ty.id && place(x.extra_ty.id) == y.extra_ty.id,
            "extrinsic of the same metadata in another order"
        ),
        _ => check!(false, "extrinsic"),
    }
    match (a.signed_extensions(), b.signed_extensions()) {
        (Ok(x), Ok(y)) => {
            check!(x.len() == y.len(), "extensions of the same metadata in another order");
            for (x, y) in x.iter().zip(&y) {
                check!(x.identifier == y.identifier && place(x.ty.id) == y.ty.id && place(x.additional_signed.id) == y.additional_signed.id, "extensions");
            }
        }
        _ => check!(false, "extensions"),
    }
    let x = substrate_parser::parse_transaction::<&[u8], (), M>(&d, &mut (), a, None);
    let y = substrate_parser::parse_transaction::<&[u8], (), M>(&d, &mut (), b, None);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            cover(1);
            check!(x.extensions == y.extensions, "extensions in another order of types");
            match (x.call_result, y.call_result) {
                (Ok(x), Ok(y)) => check!(x == y, "call in another order of types"),
                (x, y) => check!(x.is_err() && y.is_err(), "call in another order of types"),
            }
        }
        (x, y) => {
            cover(2);
            check!(x.is_err() && y.is_err(), "transaction in another order of types");
        }
    }
}
