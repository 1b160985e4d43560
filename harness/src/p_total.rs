//! P16 and P18: any registry, also cyclic or dangling; any data.
const FILE_ID: u64 = 8;
use crate::mk::*;
use crate::p_storage::{entry, HASHERS};
use crate::p_value::special;
use crate::rt::*;
use alloc::{vec, vec::Vec};
use external_memory_tools::ExternalMemory;
use frame_metadata::v14::StorageEntryType;
use primitive_types::H256;
use scale_info::{
    Field, Path, Type, TypeDef as D, TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive as P, TypeDefSequence,
    TypeDefTuple, TypeDefVariant,
};
use substrate_parser::error::{ParserError, RegistryError, RegistryInternalError, SignableError, StorageError, UncheckedExtrinsicError};
use substrate_parser::traits::*;

/// A registry that comes into being as it is looked up: each type, and each
/// reference, is one of all possible ones. Ids are given out in order of
/// mention, so that each registry appears once.
#[derive(Debug)]
pub struct Lazy {
    types: Vec<Option<Typ>>,
    /// Types at most.
    max: u32,
    menu: &'static [u8],
    /// References to types that are not there?
    dangling: bool,
    /// Types that no value of may be empty, when such are elements of vectors.
    full: Option<Vec<u32>>,
    /// Do fields and types have names and docs, where these mean nothing?
    named: Option<bool>,
    lookups: u32,
    /// Lookups considered at most, and whether more of them are a violation.
    limit: u32,
    strict: bool,
    /// Length of the data.
    size: usize,
}
#[derive(Debug, Eq, PartialEq)]
pub struct Never;
impl core::fmt::Display for Never {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl ExternalMemory for Lazy {
    type ExternalMemoryError = Never;
}
const MISSING: u32 = 900;
/// Types that are there anyway.
const CALL: u32 = 1000;
const INNER: u32 = 1001;
const BYTE: u32 = 1002;
impl Lazy {
    fn new(max: u64, menu: &'static [u8], any_data: bool, limit: u32) -> Self {
        let full = if any_data { Some(vec![]) } else { None };
        Lazy { types: vec![], max: max as u32, menu, dangling: any_data, full, named: if any_data { Some(false) } else { None }, lookups: 0, limit, strict: !any_data, size: 0 }
    }
    fn target(&mut self) -> u32 {
        let known = self.types.len() as u32;
        let fresh = (known < self.max) as u32;
        let c = choice((known + fresh + self.dangling as u32) as u64) as u32;
        if c < known {
            c
        } else if c < known + fresh {
            self.types.push(None);
            c
        } else {
            MISSING
        }
    }
    /// From here on a value of this type takes a byte at least.
    fn fill(&mut self, id: u32) {
        let Some(full) = &mut self.full else { return };
        if !full.contains(&id) {
            full.push(id);
            if let Some(Some(t)) = self.types.get(id as usize) {
                let t = t.clone();
                self.fill_parts(&t);
            }
        }
    }
    fn fill_parts(&mut self, t: &Typ) {
        match &t.type_def {
            D::Composite(x) => match x.fields.first() {
                Some(f) => self.fill(f.ty.id),
                None => assume(false),
            },
            D::Tuple(x) => match x.fields.first() {
                Some(f) => self.fill(f.id),
                None => assume(false),
            },
            D::Array(x) => {
                assume(x.len > 0);
                self.fill(x.type_param.id)
            }
            D::Compact(x) => self.fill(x.type_param.id),
            D::Variant(x) => assume(!x.variants.is_empty()),
            _ => {}
        }
    }
    fn make(&mut self, id: u32) -> Typ {
        let k = self.menu[choice(self.menu.len() as u64) as usize];
        let t = self.kind(k);
        if let D::Sequence(x) = &t.type_def {
            self.fill(x.type_param.id)
        }
        if let D::Array(x) = &t.type_def {
            if x.len > 2 {
                self.fill(x.type_param.id)
            }
        }
        if self.full.as_ref().map_or(false, |f| f.contains(&id)) {
            self.fill_parts(&t)
        }
        t
    }
    fn kind(&mut self, k: u8) -> Typ {
        let named = match self.named {
            Some(x) => x,
            // such names can matter for these only
            None if matches!(k, 1..=11) => {
                let x = flag();
                self.named = Some(x);
                x
            }
            None => false,
        };
        let f = |t: u32| if named { Field { docs: strs(&["d"]), ..field(Some("x"), t, Some("X")) } } else { field(None, t, None) };
        let mut path: &[&str] = if named { &["some", "X"] } else { &[] };
        let d = match k {
            0 => D::Primitive(P::U8),
            1 => D::Composite(TypeDefComposite { fields: vec![f(self.target())] }),
            2 => {
                let (x, y) = (self.target(), self.target());
                D::Composite(TypeDefComposite { fields: vec![f(x), f(y)] })
            }
            3 => D::Tuple(TypeDefTuple { fields: vec![self.target().into()] }),
            4 => {
                let (x, y) = (self.target(), self.target());
                D::Tuple(TypeDefTuple { fields: vec![x.into(), y.into()] })
            }
            5 => D::Compact(TypeDefCompact { type_param: self.target().into() }),
            6 => D::Array(TypeDefArray { len: 2, type_param: self.target().into() }),
            7 => D::Sequence(TypeDefSequence { type_param: self.target().into() }),
            8 => D::Variant(TypeDefVariant { variants: vec![variant("A", 0, vec![f(self.target())])] }),
            9 => D::Composite(TypeDefComposite { fields: vec![] }),
            10 => {
                let (x, y) = (self.target(), self.target());
                D::Variant(TypeDefVariant { variants: vec![variant("A", 0, vec![f(x)]), variant("B", 4, vec![f(y), f(x)])] })
            }
            11 => {
                path = &["chain", "RuntimeCall"];
                D::Variant(TypeDefVariant { variants: vec![variant("A", 0, vec![f(self.target())])] })
            }
            12 => D::Tuple(TypeDefTuple { fields: vec![] }),
            13 => D::Array(TypeDefArray { len: 0, type_param: self.target().into() }),
            14 => {
                path = &["pallet", "Event"];
                let x = self.target();
                D::Variant(TypeDefVariant { variants: vec![variant("A", 0, vec![f(x)]), variant("B", 4, vec![])] })
            }
            15 => {
                path = &["sp_runtime", "MultiSignature"];
                let x = self.target();
                let n = [None, Some("sr25519::Signature"), Some("ecdsa::Signature"), Some("ed25519::Signature")][choice(4) as usize];
                D::Variant(TypeDefVariant { variants: vec![variant("A", 0, vec![field(None, x, n)]), variant("B", 4, vec![])] })
            }
            16 => D::BitSequence(TypeDefBitSequence { bit_store_type: self.target().into(), bit_order_type: self.target().into() }),
            17 => {
                path = if flag() { &["bitvec", "order", "Lsb0"] } else { &["bitvec", "order", "Msb0"] };
                D::Composite(TypeDefComposite { fields: vec![] })
            }
            18 => D::Variant(TypeDefVariant { variants: vec![] }),
            19 => {
                path = [
                    &["sp_runtime", "MultiSignature"][..],
                    &["chain", "RuntimeCall"],
                    &["pallet", "Event"],
                    &["sp_runtime", "generic", "era", "Era"],
                    &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"],
                ][choice(5) as usize];
                D::Composite(TypeDefComposite { fields: vec![f(self.target())] })
            }
            // names that ask for labels
            20 => {
                let (n, t) = [("nonce", "Balance"), ("tip", "u8"), ("spec_version", "Hash"), ("genesis_hash", "Nonce")][choice(4) as usize];
                D::Composite(TypeDefComposite { fields: vec![field(Some(n), self.target(), Some(t))] })
            }
            21 => {
                path = [&["m", "CheckGenesis"][..], &["m", "CheckSpecVersion"], &["m", "ChargeTransactionPayment"], &["m", "CheckMortality"]][choice(4) as usize];
                D::Composite(TypeDefComposite { fields: vec![f(self.target())] })
            }
            // only the path matters for these
            22 => {
                path = special(choice(16)).0;
                D::Primitive(P::U8)
            }
            23 => D::Primitive(P::Bool),
            24 => D::Primitive(P::Char),
            25 => D::Primitive(P::Str),
            26 => D::Primitive(P::U16),
            27 => D::Primitive(P::U32),
            28 => D::Primitive(P::U64),
            29 => D::Primitive(P::U128),
            30 => D::Primitive(P::U256),
            31 => D::Primitive(P::I8),
            32 => D::Primitive(P::I16),
            33 => D::Primitive(P::I32),
            34 => D::Primitive(P::I64),
            35 => D::Primitive(P::I128),
            36 => D::Primitive(P::I256),
            _ => D::Array(TypeDefArray { len: u32::MAX, type_param: self.target().into() }),
        };
        Type { path: Path { segments: strs(path) }, type_params: Vec::new(), type_def: d, docs: if named { strs(&["d"]) } else { vec![] } }
    }
    /// The types that a value of type `id` stands next to, without any byte of
    /// its own before them.
    fn parts(&self, id: u32) -> Vec<u32> {
        match self.types.get(id as usize) {
            Some(Some(t)) => match &t.type_def {
                D::Composite(x) => x.fields.iter().map(|f| f.ty.id).collect(),
                D::Tuple(x) => x.fields.iter().map(|f| f.id).collect(),
                D::Array(x) => vec![x.type_param.id],
                D::Compact(x) => vec![x.type_param.id],
                _ => vec![],
            },
            _ => vec![],
        }
    }
    fn on_cycle(&self, id: u32) -> bool {
        let mut seen = self.parts(id);
        let mut i = 0;
        while i < seen.len() {
            if seen[i] == id {
                return true;
            }
            for x in self.parts(seen[i]) {
                if !seen.contains(&x) {
                    seen.push(x);
                }
            }
            i += 1;
        }
        false
    }
}
#[derive(Clone, Debug)]
pub struct Types;
impl ResolveType<Lazy> for Types {
    fn resolve_ty(&self, id: u32, m: &mut Lazy) -> Result<Typ, RegistryError<Lazy>> {
        m.lookups += 1;
        if m.lookups > m.limit {
            check!(!m.strict, "more lookups than data and types account for");
            assume(false);
        }
        let v = |name: &str, f: Vec<Fld>| D::Variant(TypeDefVariant { variants: vec![variant(name, 0, f)] });
        let fixed = match id {
            CALL => Some((&["chain", "RuntimeCall"][..], v("X", vec![field(None, INNER, None)]))),
            INNER => Some((&["pallet", "Call"][..], v("run", vec![]))),
            BYTE => Some((&[][..], D::Primitive(P::U8))),
            _ => None,
        };
        if let Some((path, type_def)) = fixed {
            return Ok(Type { path: Path { segments: strs(path) }, type_params: Vec::new(), type_def, docs: Vec::new() });
        }
        if id >= m.types.len() as u32 {
            return Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id }));
        }
        if m.types[id as usize].is_none() {
            let t = m.make(id);
            m.types[id as usize] = Some(t);
        }
        match &m.types[id as usize] {
            Some(t) => Ok(t.clone()),
            None => Err(RegistryError::External(Never)),
        }
    }
}
#[derive(Clone, Debug)]
pub struct LMeta {
    call: u32,
    exts: Vec<SignedExtensionMetadata>,
    params: [u32; 4],
}
impl AsMetadata<Lazy> for LMeta {
    type TypeRegistry = Types;
    type MetaStructureError = NoMeta;
    fn types(&self) -> Types {
        Types
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, NoMeta> {
        Ok(SpecNameVersion { printed_spec_version: "0".into(), spec_name: "a".into() })
    }
    fn call_ty(&self) -> Result<Sym, NoMeta> {
        Ok(self.call.into())
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, NoMeta> {
        Ok(self.exts.clone())
    }
}
impl AsCompleteMetadata<Lazy> for LMeta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, NoMeta> {
        let p = self.params;
        Ok(ExtrinsicTypeParams { address_ty: p[0].into(), call_ty: p[1].into(), signature_ty: p[2].into(), extra_ty: p[3].into() })
    }
    fn extrinsic_version(&self) -> Result<u8, NoMeta> {
        Ok(4)
    }
}
/// P22. Could this be the reason?
fn plausible(m: &Lazy, e: &ParserError<Lazy>) -> bool {
    use external_memory_tools::BufferError as B;
    use {ParserError as E, RegistryInternalError as I};
    let def = |id: &u32| m.types.get(*id as usize).and_then(|t| t.as_ref()).map(|t| &t.type_def);
    match e {
        E::Buffer(B::DataTooShort { position, minimal_length }) => *position <= m.size && *minimal_length > m.size - *position,
        E::Buffer(B::OutOfRange { position, total_length }) => *position > m.size && *total_length == m.size,
        E::NoCompact { position } => *position <= m.size,
        E::SomeDataNotUsedBlob { from } => *from < m.size,
        E::TypeFailure { position, .. } | E::UnexpectedEnumVariant { position } => *position < m.size,
        E::Registry(RegistryError::Internal(e)) => match e {
            I::CyclicMetadata { id } => m.on_cycle(*id),
            I::TypeNotResolved { id } => *id == MISSING,
            I::NotBitOrderType { id } | I::NotBitStoreType { id } => matches!(def(id), Some(D::BitSequence(_))),
            I::UnexpectedCompactInsides { id } => matches!(def(id), Some(D::Compact(_))),
            _ => false,
        },
        // nothing fails here
        E::Buffer(B::External(_)) | E::Registry(RegistryError::External(_)) => false,
    }
}
fn registry_error(m: &Lazy, e: &RegistryError<Lazy>) {
    match e {
        RegistryError::Internal(RegistryInternalError::CyclicMetadata { id }) => {
            cover(3);
            check!(m.on_cycle(*id), "no cycle there");
        }
        _ => cover(4),
    }
}
fn error(m: &Lazy, e: &ParserError<Lazy>) {
    if crate::p_why::on() {
        cover(2);
        return check!(plausible(m, e), "this cannot be the reason");
    }
    match e {
        ParserError::Registry(e) => registry_error(m, e),
        _ => cover(2),
    }
}

/// Everything that can lead back to itself.
const CYCLIC: [u8; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
/// One part each.
const CHAINS: [u8; 8] = [0, 1, 3, 5, 6, 7, 8, 11];
/// All there is.
const ALL: [u8; 38] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37,
];
/// One of a sort.
const SOME: [u8; 17] = [0, 1, 2, 4, 5, 6, 7, 8, 11, 13, 14, 15, 16, 17, 18, 25, 37];
fn lazy(max: u64, menu: u64) -> Lazy {
    match menu {
        0 => Lazy::new(max, &CYCLIC, false, 400),
        1 => Lazy::new(max, &CHAINS, false, 400),
        2 => Lazy::new(max, &ALL, true, 100),
        _ => Lazy::new(max, &SOME, true, 100),
    }
}
/// Any data, or data of small lengths and discriminants.
fn data(max: usize, menu: u64) -> Vec<u8> {
    let d = blob(max);
    if menu < 2 {
        for x in &d {
            assume(*x & 3 == 0 && *x <= 8);
        }
    }
    d
}
/// P16, P18. Values of any type. Parameter 0: types at most, 1: data at most,
/// 2: menu, 3: whole data, position 0, other positions.
#[no_mangle]
pub extern "C" fn h_any() {
    let mut m = lazy(param(0), param(2));
    let t = m.target();
    let d = data(param(1) as usize, param(2));
    m.size = d.len();
    if param(3) == 0 {
        match substrate_parser::decode_all_as_type::<&[u8], Lazy, LMeta>(&t.into(), &&d[..], &mut m, &Types) {
            Ok(_) => cover(1),
            Err(e) => error(&m, &e),
        }
        return;
    }
    let mut p = 0;
    if param(3) == 2 {
        let n = d.len();
        p = [1, n, n + 1, isize::MAX as usize, usize::MAX - 1, usize::MAX][choice(6) as usize];
    }
    match substrate_parser::decode_as_type_at_position::<&[u8], Lazy, LMeta>(&t.into(), &&d[..], &mut m, &Types, &mut p) {
        Ok(_) => cover(1),
        Err(e) => error(&m, &e),
    }
}
/// P16, P18. Storage entries of any type. Parameter 0: types at most, 1: value
/// at most, or key beyond the hashes, 2: menu, 3: hashers (0 is a plain entry).
#[no_mangle]
pub extern "C" fn h_any_store() {
    let mut m = lazy(param(0), param(2));
    let n = param(3);
    let mut keys = 0;
    let (ty, v) = if n == 0 {
        (StorageEntryType::Plain(m.target().into()), data(param(1) as usize, param(2)))
    } else {
        let mut hashers = vec![];
        for _ in 0..n {
            // one of each sort
            let h = if n == 1 { [1, 6, 5][choice(3) as usize] } else { 6 };
            hashers.push(HASHERS[h].clone());
            keys += [0, 32, 0, 0, 0, 8, 0][h];
        }
        let key = m.target();
        (StorageEntryType::Map { hashers, key: key.into(), value: BYTE.into() }, bytes(1))
    };
    let mut k = bytes(32 + keys);
    if n > 0 {
        k.extend(data(param(1) as usize, param(2)));
    }
    let e = entry(ty);
    match substrate_parser::decode_as_storage_entry::<&[u8], Lazy, LMeta>(&&k[..], &&v[..], &mut m, &e, &Types) {
        Ok(_) => cover(1),
        Err(StorageError::ParsingKey(e)) => error(&m, &e),
        Err(StorageError::ParsingValue(e)) => error(&m, &e),
        Err(_) => cover(5),
    }
}
fn signable(m: &Lazy, e: &SignableError<Lazy, LMeta>) {
    match e {
        SignableError::Parsing(e) => error(m, e),
        _ => cover(5),
    }
}
const EXTS: [&str; 5] = ["CheckSpecVersion", "CheckGenesis", "CheckMortality", "ChargeAssetTxPayment", "Other"];
/// P16, P18. Transactions. Parameter 0: types at most, 1: data at most, 2: menu,
/// 3: extensions, none for any type of call, 4: unmarked, 5: a genesis hash.
#[no_mangle]
pub extern "C" fn h_any_tx() {
    let mut m = lazy(param(0), param(2));
    let mut exts = vec![];
    let mut d = vec![];
    for _ in 0..param(3) {
        let n = EXTS[choice(5) as usize];
        let (a, b) = if flag() { (m.target(), BYTE) } else { (BYTE, m.target()) };
        exts.push(ext(n, a, b));
    }
    let call = if param(3) == 0 {
        m.target()
    } else {
        d.extend([0, 0]);
        CALL
    };
    d.extend(data(param(1) as usize, param(2)));
    let x = LMeta { call, exts, params: [0; 4] };
    let g = if param(5) == 1 { Some(H256([4; 32])) } else { None };
    if param(4) == 1 {
        match substrate_parser::parse_transaction_unmarked::<&[u8], Lazy, LMeta>(&&d[..], &mut m, &x, g) {
            Ok(_) => cover(1),
            Err(e) => signable(&m, &e),
        }
        return;
    }
    if param(3) > 0 {
        d.insert(0, 8);
    }
    match substrate_parser::parse_transaction::<&[u8], Lazy, LMeta>(&&d[..], &mut m, &x, g) {
        Ok(t) => {
            cover(1);
            if let Err(e) = t.call_result {
                signable(&m, &e)
            }
        }
        Err(e) => signable(&m, &e),
    }
}
/// P16, P18. Unchecked extrinsics. Parameter 0: types at most, 1: data at most
/// after the version, 2: menu, 3: which of the four types, all others fixed.
#[no_mangle]
pub extern "C" fn h_any_unchecked() {
    let mut m = lazy(param(0), param(2));
    let mut params = [BYTE, CALL, BYTE, BYTE];
    params[pick(3, 4) as usize] = m.target();
    let x = LMeta { call: 0, exts: vec![], params };
    let mut d = vec![0, if flag() { 4 } else { 0x84 }];
    d.extend(data(param(1) as usize, param(2)));
    d[0] = (d.len() as u8 - 1) * 4;
    match substrate_parser::decode_as_unchecked_extrinsic::<&[u8], Lazy, LMeta>(&&d[..], &mut m, &x) {
        Ok(_) => cover(1),
        Err(UncheckedExtrinsicError::Parsing(e)) => error(&m, &e),
        Err(_) => cover(5),
    }
}
