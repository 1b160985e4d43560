//! Building metadata.
use alloc::{string::String, vec::Vec};
use core::any::TypeId;
use external_memory_tools::ExternalMemory;
use scale_info::{
    form::PortableForm, interner::UntrackedSymbol, Field, Path, PortableRegistry, PortableType, Type, TypeDef,
    TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive as P, TypeDefSequence,
    TypeDefTuple, TypeDefVariant, TypeParameter, Variant,
};
use substrate_parser::cards::{Call, ExtendedData};
use substrate_parser::error::ParserError;
use substrate_parser::traits::*;

pub type Sym = UntrackedSymbol<TypeId>;
pub type Fld = Field<PortableForm>;
pub type Typ = Type<PortableForm>;

pub fn strs(s: &[&str]) -> Vec<String> {
    s.iter().map(|x| String::from(*x)).collect()
}
pub fn field(name: Option<&str>, ty: u32, type_name: Option<&str>) -> Fld {
    Field { name: name.map(String::from), ty: ty.into(), type_name: type_name.map(String::from), docs: Vec::new() }
}
pub fn variant(name: &str, index: u8, fields: Vec<Fld>) -> Variant<PortableForm> {
    Variant { name: String::from(name), fields, index, docs: Vec::new() }
}
pub const PRIMS: [P; 15] = [
    P::Bool, P::Char, P::Str, P::U8, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256,
];
/// Type registry under construction; ids are indices.
#[derive(Default)]
pub struct Reg {
    pub t: Vec<Typ>,
}
impl Reg {
    pub fn new() -> Self {
        Reg { t: Vec::new() }
    }
    pub fn add(&mut self, path: &[&str], type_def: TypeDef<PortableForm>) -> u32 {
        self.t.push(Type { path: Path { segments: strs(path) }, type_params: Vec::new(), type_def, docs: Vec::new() });
        self.t.len() as u32 - 1
    }
    pub fn docs(&mut self, id: u32, docs: &[&str]) -> u32 {
        self.t[id as usize].docs = strs(docs);
        id
    }
    pub fn path(&mut self, id: u32, path: &[&str]) -> u32 {
        self.t[id as usize].path.segments = strs(path);
        id
    }
    pub fn params(&mut self, id: u32, p: &[(&str, Option<u32>)]) -> u32 {
        self.t[id as usize].type_params =
            p.iter().map(|(n, t)| TypeParameter { name: String::from(*n), ty: t.map(|t| t.into()) }).collect();
        id
    }
    pub fn prim(&mut self, p: P) -> u32 {
        self.add(&[], TypeDef::Primitive(p))
    }
    pub fn tuple(&mut self, f: &[u32]) -> u32 {
        self.add(&[], TypeDef::Tuple(TypeDefTuple { fields: f.iter().map(|x| (*x).into()).collect() }))
    }
    pub fn seq(&mut self, e: u32) -> u32 {
        self.add(&[], TypeDef::Sequence(TypeDefSequence { type_param: e.into() }))
    }
    pub fn array(&mut self, e: u32, len: u32) -> u32 {
        self.add(&[], TypeDef::Array(TypeDefArray { len, type_param: e.into() }))
    }
    pub fn compact(&mut self, e: u32) -> u32 {
        self.add(&[], TypeDef::Compact(TypeDefCompact { type_param: e.into() }))
    }
    pub fn bits(&mut self, store: u32, order: u32) -> u32 {
        let d = TypeDefBitSequence { bit_store_type: store.into(), bit_order_type: order.into() };
        self.add(&[], TypeDef::BitSequence(d))
    }
    pub fn comp(&mut self, path: &[&str], fields: Vec<Fld>) -> u32 {
        self.add(path, TypeDef::Composite(TypeDefComposite { fields }))
    }
    pub fn var(&mut self, path: &[&str], variants: Vec<Variant<PortableForm>>) -> u32 {
        self.add(path, TypeDef::Variant(TypeDefVariant { variants }))
    }
    pub fn option(&mut self, e: u32) -> u32 {
        let some = variant("Some", 1, alloc::vec![field(None, e, None)]);
        self.var(&["Option"], alloc::vec![variant("None", 0, Vec::new()), some])
    }
    /// A newtype over `[u8; n]`, the way metadata describes hashes and keys.
    pub fn bytes_struct(&mut self, path: &[&str], n: u32) -> u32 {
        let u = self.prim(P::U8);
        let a = self.array(u, n);
        self.comp(path, alloc::vec![field(None, a, None)])
    }
    /// Everything has docs, and all types have parameters.
    pub fn deco(&mut self) {
        let n = self.t.len() as u32;
        for (i, t) in self.t.iter_mut().enumerate() {
            let p = |name: &str, ty: Option<u32>| TypeParameter { name: String::from(name), ty: ty.map(|t| t.into()) };
            t.type_params = alloc::vec![p("T", Some((i as u32 + 1) % n)), p("Call", Some(0)), p("Balance", None)];
            t.docs = strs(&["Of nonce", "", " and Balance"]);
            let line = strs(&["spec_version"]);
            match &mut t.type_def {
                TypeDef::Composite(x) => x.fields.iter_mut().for_each(|f| f.docs = line.clone()),
                TypeDef::Variant(x) => x.variants.iter_mut().for_each(|v| {
                    v.docs = line.clone();
                    v.fields.iter_mut().for_each(|f| f.docs = line.clone());
                }),
                _ => (),
            }
        }
    }
    pub fn done(self) -> PortableRegistry {
        PortableRegistry { types: self.t.into_iter().enumerate().map(|(i, t)| PortableType::new(i as u32, t)).collect() }
    }
}

/// Metadata given piece by piece.
#[derive(Clone, Debug)]
pub struct Meta {
    pub reg: PortableRegistry,
    pub call: u32,
    pub exts: Vec<SignedExtensionMetadata>,
    pub version: String,
    pub params: [u32; 4],
    pub xt_version: u8,
}
impl Meta {
    pub fn new(reg: PortableRegistry) -> Self {
        Meta { reg, call: 0, exts: Vec::new(), version: String::new(), params: [0; 4], xt_version: 4 }
    }
}
pub fn ext(identifier: &str, ty: u32, additional_signed: u32) -> SignedExtensionMetadata {
    SignedExtensionMetadata { identifier: String::from(identifier), ty: ty.into(), additional_signed: additional_signed.into() }
}
#[derive(Debug, Eq, PartialEq)]
pub struct NoMeta;
impl core::fmt::Display for NoMeta {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl<E: ExternalMemory> AsMetadata<E> for Meta {
    type TypeRegistry = PortableRegistry;
    type MetaStructureError = NoMeta;
    fn types(&self) -> PortableRegistry {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, NoMeta> {
        Ok(SpecNameVersion { printed_spec_version: self.version.clone(), spec_name: String::new() })
    }
    fn call_ty(&self) -> Result<Sym, NoMeta> {
        Ok(self.call.into())
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, NoMeta> {
        Ok(self.exts.clone())
    }
}
impl<E: ExternalMemory> AsCompleteMetadata<E> for Meta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, NoMeta> {
        let p = self.params;
        Ok(ExtrinsicTypeParams { address_ty: p[0].into(), call_ty: p[1].into(), signature_ty: p[2].into(), extra_ty: p[3].into() })
    }
    fn extrinsic_version(&self) -> Result<u8, NoMeta> {
        Ok(self.xt_version)
    }
}

pub type Got = Result<ExtendedData, ParserError<()>>;
/// Decode at a position of a byte slice, with in-memory metadata.
pub fn decode_at(r: &PortableRegistry, id: u32, d: &[u8], p: &mut usize) -> Got {
    substrate_parser::decode_as_type_at_position::<&[u8], (), Meta>(&id.into(), &d, &mut (), r, p)
}
pub fn decode_all(r: &PortableRegistry, id: u32, d: &[u8]) -> Got {
    substrate_parser::decode_all_as_type::<&[u8], (), Meta>(&id.into(), &d, &mut (), r)
}
pub fn call_is(c: &Call, d: &ExtendedData) -> bool {
    matches!(&d.data, substrate_parser::cards::ParsedData::Call(x) if x == c)
}
