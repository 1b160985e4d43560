//! Reference semantics: what the bytes of a SCALE value of a metadata type mean.
//!
//! Written from the SCALE specification and the crate's documentation, over
//! `PortableRegistry`, sharing no code with the parser. `decode` says what the
//! value is (or that the bytes are not a value of the type); `same` says
//! whether a `ParsedData` shows that value.
use alloc::{string::String, vec::Vec};
use parity_scale_codec::Encode;
use scale_info::{form::PortableForm, Field, PortableRegistry, Type, TypeDef, TypeDefPrimitive as P};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as S};

/// Why bytes are not a value of a type, and the place of the smallest value
/// that is concerned.
#[derive(Clone, Copy)]
pub struct Bad {
    pub at: usize,
    pub why: Why,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Why {
    /// Fewer bytes than this are left.
    Short(usize),
    NoCompact,
    NoVariant,
    /// The bytes mean nothing for this type.
    Fails(&'static str),
    /// The compact type has no compact form.
    Insides(u32),
    /// The bit sequence is of no known order, or store.
    Order(u32),
    Store(u32),
    /// Storage keys: wrong hash; parts and type do not fit; more data.
    Mismatch,
    NotTuple,
    Count,
    Rest,
    /// The value is no call.
    NotCall,
    Other,
}
pub const BAD: Bad = Bad { at: 0, why: Why::Other };
fn bad<T>(at: usize, why: Why) -> R<T> {
    Err(Bad { at, why })
}
pub type R<T> = Result<T, Bad>;

/// Unsigned little-endian integer of `n` bytes.
pub fn le(d: &[u8]) -> u128 {
    let mut v = 0u128;
    let mut i = d.len();
    while i > 0 {
        i -= 1;
        v = v << 8 | d[i] as u128;
    }
    v
}
pub fn take<'a>(d: &'a [u8], p: &mut usize, n: usize) -> R<&'a [u8]> {
    if n > d.len() - *p {
        return bad(*p, Why::Short(n));
    }
    let s = &d[*p..*p + n];
    *p += n;
    Ok(s)
}
/// SCALE compact integer that must fit `size` bytes, shortest form only.
pub fn compact(d: &[u8], p: &mut usize, size: usize) -> R<u128> {
    let start = *p;
    compact_(d, p, size).map_err(|_| Bad { at: start, why: Why::NoCompact })
}
fn compact_(d: &[u8], p: &mut usize, size: usize) -> R<u128> {
    let b0 = take(d, p, 1)?[0];
    let max = if size == 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
    let v = match b0 & 3 {
        0 => (b0 >> 2) as u128,
        1 => {
            let v = (b0 as u128 | (take(d, p, 1)?[0] as u128) << 8) >> 2;
            if v < 1 << 6 {
                return Err(BAD);
            }
            v
        }
        2 => {
            if size == 1 {
                return Err(BAD);
            }
            let v = (b0 as u128 | le(take(d, p, 3)?) << 8) >> 2;
            if v < 1 << 14 {
                return Err(BAD);
            }
            v
        }
        _ => {
            let n = (b0 >> 2) as usize + 4;
            if n > size {
                return Err(BAD);
            }
            let n = crate::rt::conc(n as u64) as usize;
            let s = take(d, p, n)?;
            let v = le(s);
            if n == 4 {
                if v < 1 << 30 {
                    return Err(BAD);
                }
            } else if s[n - 1] == 0 {
                return Err(BAD);
            }
            v
        }
    };
    if v > max {
        Err(BAD)
    } else {
        Ok(v)
    }
}
/// Compact length prefix of sequences, strings and bit sequences.
pub fn length(d: &[u8], p: &mut usize) -> R<usize> {
    Ok(compact(d, p, 4)? as usize)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum H {
    None,
    SpecVersion,
    TxVersion,
    Genesis,
    BlockHash,
    Nonce,
    TipAsset,
    Tip,
    Balance,
    SpecName,
}
pub fn hint_field(f: &Field<PortableForm>) -> H {
    let h = match f.name.as_deref() {
        Some("nonce") => H::Nonce,
        Some("spec_version") => H::SpecVersion,
        Some("spec_name") => H::SpecName,
        Some("tx_version") | Some("transaction_version") => H::TxVersion,
        _ => H::None,
    };
    if h != H::None {
        return h;
    }
    match f.type_name.as_deref() {
        Some("Balance") | Some("BalanceOf<T>") | Some("BalanceOf<T, I>") | Some("DepositBalance")
        | Some("ExtendedBalance") | Some("PalletBalanceOf<T>") | Some("T::Balance") => H::Balance,
        _ => H::None,
    }
}
pub fn hint_ext(identifier: &str) -> H {
    match identifier {
        "CheckSpecVersion" => H::SpecVersion,
        "CheckTxVersion" => H::TxVersion,
        "CheckGenesis" => H::Genesis,
        "CheckMortality" => H::BlockHash,
        "CheckNonce" => H::Nonce,
        "ChargeAssetTxPayment" => H::TipAsset,
        "ChargeTransactionPayment" => H::Tip,
        _ => H::None,
    }
}
pub fn hint_path(t: &Type<PortableForm>) -> H {
    match t.path.segments.last().map(|s| s.as_str()) {
        Some("CheckNonce") => H::Nonce,
        Some("ChargeAssetTxPayment") => H::TipAsset,
        Some("ChargeTransactionPayment") => H::Tip,
        _ => H::None,
    }
}
fn specialty(h: H) -> S {
    match h {
        H::SpecVersion => S::SpecVersion,
        H::TxVersion => S::TxVersion,
        H::Nonce => S::Nonce,
        H::TipAsset => S::TipAsset,
        H::Tip => S::Tip,
        H::Balance => S::Balance,
        _ => S::None,
    }
}

/// Types with dedicated representation, by path.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Sp {
    Account,
    Era,
    H160,
    H256,
    H512,
    Perbill,
    Percent,
    Permill,
    Perquintill,
    PerU16,
    PubEd,
    PubSr,
    PubEc,
    SigEd,
    SigSr,
    SigEc,
}
fn path_is(t: &Type<PortableForm>, want: &[&str]) -> bool {
    let s = &t.path.segments;
    s.len() == want.len() && s.iter().zip(want.iter()).all(|(a, b)| a.as_str() == *b)
}
fn crypto_ns(t: &Type<PortableForm>, ident: &str) -> Option<u8> {
    if path_is(t, &["sp_core", "ed25519", ident]) {
        Some(0)
    } else if path_is(t, &["sp_core", "sr25519", ident]) {
        Some(1)
    } else if path_is(t, &["sp_core", "ecdsa", ident]) {
        Some(2)
    } else {
        None
    }
}
pub fn special(t: &Type<PortableForm>) -> Option<Sp> {
    match t.path.segments.last()?.as_str() {
        "AccountId32" => Some(Sp::Account),
        "Era" => Some(Sp::Era),
        "AccountId20" | "H160" => Some(Sp::H160),
        "H256" => Some(Sp::H256),
        "H512" => Some(Sp::H512),
        "Perbill" => Some(Sp::Perbill),
        "Percent" => Some(Sp::Percent),
        "Permill" => Some(Sp::Permill),
        "Perquintill" => Some(Sp::Perquintill),
        "PerU16" => Some(Sp::PerU16),
        "Public" => Some([Sp::PubEd, Sp::PubSr, Sp::PubEc][crypto_ns(t, "Public")? as usize]),
        "Signature" => Some([Sp::SigEd, Sp::SigSr, Sp::SigEc][crypto_ns(t, "Signature")? as usize]),
        _ => None,
    }
}
pub fn special_len(s: Sp) -> usize {
    match s {
        Sp::Account | Sp::H256 | Sp::PubEd | Sp::PubSr => 32,
        Sp::H160 => 20,
        Sp::H512 | Sp::SigEd | Sp::SigSr => 64,
        Sp::PubEc => 33,
        Sp::SigEc => 65,
        Sp::Perbill | Sp::Permill => 4,
        Sp::Percent => 1,
        Sp::Perquintill => 8,
        Sp::PerU16 => 2,
        Sp::Era => 0,
    }
}
/// Identifiers that stop the unwrapping of an element type.
fn stops_husk(t: &Type<PortableForm>) -> bool {
    if special(t).is_some() {
        return true;
    }
    match t.path.segments.last().map(|s| s.as_str()) {
        Some("Call") | Some("RuntimeCall") | Some("Event") | Some("RuntimeEvent") | Some("MultiSignature") => true,
        Some("UncheckedExtrinsic") => path_is(t, &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"]),
        _ => false,
    }
}

#[derive(Clone)]
pub struct F {
    pub name: Option<String>,
    pub type_name: Option<String>,
    pub docs: Vec<String>,
    pub n: N,
}
/// A value and the types its information comes from.
#[derive(Clone)]
pub struct N {
    pub v: V,
    pub info: Vec<u32>,
}
#[derive(Clone)]
pub enum V {
    Bool(bool),
    Char(u32),
    Str(Vec<u8>, H),
    U(u128, u8, H),
    I(u128, u8),
    Big(Vec<u8>, bool),
    Comp(Vec<F>),
    Var { name: String, docs: Vec<String>, fields: Vec<F> },
    Empty,
    /// elements, information of the elements (types), `Some` for typed sequences
    Seq(Vec<V>, Vec<u32>),
    Tup(Vec<N>),
    /// store width in bytes, msb, bits in order
    Bits(u8, bool, Vec<bool>),
    Era(Era),
    Fix(Sp, Vec<u8>, H),
    Per(Sp, u64),
    Pallet { event: bool, inner: u32, pallet: String, name: String, docs: Vec<String>, fields: Vec<F> },
}

#[derive(Clone, Copy)]
pub struct C {
    pub compact: bool,
    /// Of which compact type.
    pub cid: u32,
    pub h: H,
}
pub const TOP: C = C { compact: false, cid: 0, h: H::None };

pub fn ty(r: &PortableRegistry, id: u32) -> &Type<PortableForm> {
    &r.types[id as usize].ty
}

fn uint(d: &[u8], p: &mut usize, n: u8, c: C) -> R<V> {
    let v = if c.compact { compact(d, p, n as usize)? } else { le(take(d, p, n as usize)?) };
    Ok(V::U(v, n, c.h))
}
fn plain(c: C) -> R<()> {
    if c.compact {
        bad(0, Why::Insides(c.cid))
    } else {
        Ok(())
    }
}
fn forget(h: H) -> H {
    if h == H::TipAsset {
        h
    } else {
        H::None
    }
}
fn or(a: H, b: H) -> H {
    if a == H::None {
        b
    } else {
        a
    }
}

/// Mortal eras: period a power of two in 4..=65536, phase a multiple of the
/// quantization step below the period.
pub fn era(d: &[u8], p: &mut usize) -> R<Era> {
    let start = *p;
    let b0 = take(d, p, 1)?[0];
    if b0 == 0 {
        return Ok(Era::Immortal);
    }
    let b1 = match take(d, p, 1) {
        Ok(x) => x[0],
        Err(_) => return bad(start, Why::Short(2)),
    };
    let e = b0 as u64 | (b1 as u64) << 8;
    let log = (e & 15) + 1;
    let period = 1u64 << log;
    let phase = if log > 12 { (e >> 4) << (log - 12) } else { e >> 4 };
    if period < 4 || phase >= period {
        return bad(start, Why::Fails("Era"));
    }
    Ok(Era::Mortal(period, phase))
}

pub fn prim(t: &P, d: &[u8], p: &mut usize, c: C) -> R<V> {
    let start = *p;
    let n = match t {
        P::U8 => return uint(d, p, 1, c),
        P::U16 => return uint(d, p, 2, c),
        P::U32 => return uint(d, p, 4, c),
        P::U64 => return uint(d, p, 8, c),
        P::U128 => return uint(d, p, 16, c),
        P::I8 => 1,
        P::I16 => 2,
        P::I32 => 4,
        P::I64 => 8,
        P::I128 => 16,
        P::Bool => {
            plain(c)?;
            return match take(d, p, 1)?[0] {
                0 => Ok(V::Bool(false)),
                1 => Ok(V::Bool(true)),
                _ => bad(start, Why::Fails("bool")),
            };
        }
        P::Char => {
            plain(c)?;
            let x = le(take(d, p, 4)?) as u32;
            return if x < 0xd800 || (x >= 0xe000 && x < 0x110000) { Ok(V::Char(x)) } else { bad(start, Why::Fails("char")) };
        }
        P::Str => {
            plain(c)?;
            let n = length(d, p)?;
            if n > d.len() - *p {
                return bad(*p, Why::Short(n));
            }
            let n = crate::rt::conc(n as u64) as usize;
            let s = take(d, p, n)?;
            return if utf8(s) { Ok(V::Str(s.to_vec(), c.h)) } else { bad(start, Why::Fails("str")) };
        }
        P::U256 | P::I256 => {
            plain(c)?;
            return Ok(V::Big(take(d, p, 32)?.to_vec(), matches!(t, P::I256)));
        }
    };
    plain(c)?;
    Ok(V::I(le(take(d, p, n)?), n as u8))
}
/// Well-formed UTF-8 (Unicode 15, table 3-7).
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let (n, lo, hi) = if b < 0x80 {
            (0, 0, 0)
        } else if b < 0xc2 {
            return false;
        } else if b < 0xe0 {
            (1, 0x80, 0xbf)
        } else if b == 0xe0 {
            (2, 0xa0, 0xbf)
        } else if b == 0xed {
            (2, 0x80, 0x9f)
        } else if b < 0xf0 {
            (2, 0x80, 0xbf)
        } else if b == 0xf0 {
            (3, 0x90, 0xbf)
        } else if b < 0xf4 {
            (3, 0x80, 0xbf)
        } else if b == 0xf4 {
            (3, 0x80, 0x8f)
        } else {
            return false;
        };
        if n > s.len() - 1 - i {
            return false;
        }
        if n > 0 && !(s[i + 1] >= lo && s[i + 1] <= hi) {
            return false;
        }
        let mut k = 2;
        while k <= n {
            if s[i + k] & 0xc0 != 0x80 {
                return false;
            }
            k += 1;
        }
        i += 1 + n;
    }
    true
}

fn fields(r: &PortableRegistry, fs: &[Field<PortableForm>], d: &[u8], p: &mut usize, c: C) -> R<Vec<F>> {
    let mut c = c;
    if fs.len() > 1 {
        plain(c)?;
        c.h = forget(c.h);
    }
    let mut out = Vec::new();
    for f in fs {
        let n = decode(r, f.ty.id, d, p, C { compact: c.compact, cid: c.cid, h: or(c.h, hint_field(f)) })?;
        out.push(F { name: f.name.clone(), type_name: f.type_name.clone(), docs: f.docs.clone(), n });
    }
    Ok(out)
}
/// Element type with wrappers removed: single-field structs and compacts.
fn husk(r: &PortableRegistry, id: u32) -> R<(u32, C, Vec<u32>)> {
    let mut id = id;
    let mut c = TOP;
    let mut info = Vec::new();
    loop {
        let t = ty(r, id);
        info.push(id);
        if stops_husk(t) {
            break;
        }
        match &t.type_def {
            TypeDef::Composite(x) if x.fields.len() == 1 => {
                c.h = or(c.h, hint_field(&x.fields[0]));
                id = x.fields[0].ty.id;
            }
            TypeDef::Compact(x) => {
                plain(c)?;
                c.compact = true;
                c.cid = id;
                id = x.type_param.id;
            }
            _ => break,
        }
    }
    Ok((id, c, info))
}
fn elements(r: &PortableRegistry, el: u32, n: usize, d: &[u8], p: &mut usize, c: C) -> R<V> {
    plain(c)?;
    let (id, ec, info) = husk(r, el)?;
    let mut out = Vec::new();
    let mut i = 0;
    while i < n {
        out.push(decode(r, id, d, p, ec)?.v);
        i += 1;
    }
    Ok(V::Seq(out, info))
}
fn variant<'a>(t: &'a Type<PortableForm>, d: &[u8], p: usize) -> R<&'a scale_info::Variant<PortableForm>> {
    let mut q = p;
    let b = take(d, &mut q, 1)?[0];
    if let TypeDef::Variant(x) = &t.type_def {
        for v in x.variants.iter() {
            if v.index == b {
                return Ok(v);
            }
        }
    }
    bad(p, Why::NoVariant)
}
fn item_kind(t: &Type<PortableForm>) -> Option<bool> {
    match t.path.segments.last().map(|s| s.as_str()) {
        Some("Call") | Some("RuntimeCall") => Some(false),
        Some("Event") | Some("RuntimeEvent") => Some(true),
        _ => None,
    }
}
/// Length of the `u8` array that a field of a multi-signature variant resolves to.
fn u8_array(r: &PortableRegistry, id: u32) -> Option<u32> {
    let (id, _, _) = husk(r, id).ok()?;
    if let TypeDef::Array(a) = &ty(r, id).type_def {
        if let TypeDef::Primitive(P::U8) = ty(r, a.type_param.id).type_def {
            return Some(a.len);
        }
    }
    None
}
fn fixed(s: Sp, d: &[u8], p: &mut usize, c: C) -> R<V> {
    let start = *p;
    match s {
        Sp::Perbill | Sp::Percent | Sp::Permill | Sp::Perquintill | Sp::PerU16 => {
            let n = special_len(s);
            let v = if c.compact { compact(d, p, n)? } else { le(take(d, p, n)?) };
            let max = match s {
                Sp::Percent => 100,
                Sp::Permill => 1_000_000,
                Sp::Perbill => 1_000_000_000,
                Sp::Perquintill => 1_000_000_000_000_000_000,
                _ => 65535,
            };
            // sp_arithmetic: a compact above the accuracy saturates, a plain value is invalid
            if v > max && !c.compact {
                return bad(start, Why::Fails(match s {
                    Sp::Percent => "Percent",
                    Sp::Permill => "Permill",
                    Sp::Perbill => "Perbill",
                    Sp::Perquintill => "Perquintill",
                    _ => "PerU16",
                }));
            }
            Ok(V::Per(s, if v > max { max as u64 } else { v as u64 }))
        }
        Sp::Era => {
            plain(c)?;
            Ok(V::Era(era(d, p)?))
        }
        _ => {
            plain(c)?;
            Ok(V::Fix(s, take(d, p, special_len(s))?.to_vec(), c.h))
        }
    }
}

pub fn decode(r: &PortableRegistry, id: u32, d: &[u8], p: &mut usize, c: C) -> R<N> {
    let t = ty(r, id);
    let one = |v: V| N { v, info: alloc::vec![id] };
    if let Some(s) = special(t) {
        return Ok(one(fixed(s, d, p, c)?));
    }
    if t.path.segments.last().map(|s| s.as_str()) == Some("MultiSignature") {
        if let Ok(v) = variant(t, d, *p) {
            if v.fields.len() == 1 {
                let want = match v.fields[0].type_name.as_deref() {
                    Some("ecdsa::Signature") => Some((Sp::SigEc, 65)),
                    Some("ed25519::Signature") => Some((Sp::SigEd, 64)),
                    Some("sr25519::Signature") => Some((Sp::SigSr, 64)),
                    _ => None,
                };
                if let Some((s, n)) = want {
                    if u8_array(r, v.fields[0].ty.id) == Some(n) {
                        *p += 1;
                        return Ok(one(fixed(s, d, p, c)?));
                    }
                }
            }
        }
    }
    if let Some(event) = item_kind(t) {
        if let Ok(v) = variant(t, d, *p) {
            if v.fields.len() == 1 {
                let inner = v.fields[0].ty.id;
                if item_kind(ty(r, inner)) == Some(event) {
                    if let TypeDef::Variant(_) = ty(r, inner).type_def {
                        plain(c)?;
                        let pallet = v.name.clone();
                        *p += 1;
                        let w = variant(ty(r, inner), d, *p)?;
                        *p += 1;
                        let fields = fields(r, &w.fields, d, p, TOP)?;
                        return Ok(one(V::Pallet { event, inner, pallet, name: w.name.clone(), docs: w.docs.clone(), fields }));
                    }
                }
            }
        }
    }
    Ok(one(match &t.type_def {
        TypeDef::Composite(x) => V::Comp(fields(r, &x.fields, d, p, c)?),
        TypeDef::Variant(x) => {
            plain(c)?;
            if x.variants.is_empty() {
                V::Empty
            } else {
                let v = variant(t, d, *p)?;
                *p += 1;
                let fs = fields(r, &v.fields, d, p, TOP)?;
                V::Var { name: v.name.clone(), docs: v.docs.clone(), fields: fs }
            }
        }
        TypeDef::Sequence(x) => {
            // not concretised: every element takes a byte, so the loop ends
            let n = length(d, p)?;
            elements(r, x.type_param.id, n, d, p, c)?
        }
        TypeDef::Array(x) => elements(r, x.type_param.id, x.len as usize, d, p, c)?,
        TypeDef::Tuple(x) => {
            let mut c = c;
            if x.fields.len() > 1 {
                plain(c)?;
                c.h = forget(c.h);
            }
            let mut out = Vec::new();
            for f in x.fields.iter() {
                out.push(decode(r, f.id, d, p, C { compact: c.compact, cid: c.cid, h: or(c.h, hint_path(ty(r, f.id))) })?);
            }
            V::Tup(out)
        }
        TypeDef::Primitive(x) => prim(x, d, p, c)?,
        TypeDef::Compact(x) => {
            plain(c)?;
            let mut n = decode(r, x.type_param.id, d, p, C { compact: true, cid: id, h: c.h })?;
            let mut info = alloc::vec![id];
            info.append(&mut n.info);
            return Ok(N { v: n.v, info });
        }
        TypeDef::BitSequence(x) => {
            plain(c)?;
            let order = ty(r, x.bit_order_type.id);
            let msb = match (&order.type_def, order.path.segments.last().map(|s| s.as_str())) {
                (TypeDef::Composite(_), Some("Lsb0")) => false,
                (TypeDef::Composite(_), Some("Msb0")) => true,
                _ => return bad(0, Why::Order(id)),
            };
            let w = match &ty(r, x.bit_store_type.id).type_def {
                TypeDef::Primitive(P::U8) => 1,
                TypeDef::Primitive(P::U16) => 2,
                TypeDef::Primitive(P::U32) => 4,
                TypeDef::Primitive(P::U64) => 8,
                _ => return bad(0, Why::Store(id)),
            };
            bits(d, p, w, msb)?
        }
    }))
}
/// Bit `i` lives in little-endian store word `i / width`, counted from the
/// least (Lsb0) or the most (Msb0) significant end.
pub fn bits(d: &[u8], p: &mut usize, w: usize, msb: bool) -> R<V> {
    let start = *p;
    let n = length(d, p)?;
    let words = n / (8 * w) + (n % (8 * w) != 0) as usize;
    if words > (d.len() - *p) / w {
        // of the whole sequence, with its length
        return bad(start, Why::Short(*p - start + words * w));
    }
    let n = crate::rt::conc(n as u64) as usize;
    let words = n / (8 * w) + (n % (8 * w) != 0) as usize;
    let s = take(d, p, words * w)?;
    let mut out = Vec::new();
    let mut i = 0;
    while i < n {
        let (word, k) = (i / (8 * w), i % (8 * w));
        let k = if msb { 8 * w - 1 - k } else { k };
        out.push(s[word * w + k / 8] >> (k % 8) & 1 == 1);
        i += 1;
    }
    Ok(V::Bits(w as u8, msb, out))
}

/// What `same` compares.
#[derive(Clone, Copy)]
pub struct Cmp {
    pub hints: bool,
    pub info: bool,
}
pub const VALUES: Cmp = Cmp { hints: false, info: false };
pub const HINTS: Cmp = Cmp { hints: true, info: false };
pub const INFO: Cmp = Cmp { hints: false, info: true };
pub const FULL: Cmp = Cmp { hints: true, info: true };

pub fn join(docs: &[String]) -> String {
    let mut s = String::new();
    for (i, d) in docs.iter().enumerate() {
        if i > 0 {
            s.push('\n');
        }
        s.push_str(d);
    }
    s
}
pub fn one_info(t: &Type<PortableForm>, got: &Info) -> bool {
    got.docs == join(&t.docs) && got.path.segments == t.path.segments
}
pub fn same_info(r: &PortableRegistry, want: &[u32], got: &[Info]) -> bool {
    let mut k = 0;
    for id in want {
        let t = ty(r, *id);
        if t.path.segments.is_empty() && join(&t.docs).is_empty() {
            continue;
        }
        if k >= got.len() || !one_info(t, &got[k]) {
            return false;
        }
        k += 1;
    }
    k == got.len()
}
pub fn same_ext(r: &PortableRegistry, n: &N, got: &ExtendedData, m: Cmp) -> bool {
    (!m.info || same_info(r, &n.info, &got.info)) && same(r, &n.v, &got.data, m)
}
pub fn same_fields(r: &PortableRegistry, fs: &[F], got: &[FieldData], m: Cmp) -> bool {
    if fs.len() != got.len() {
        return false;
    }
    for i in 0..fs.len() {
        let (f, g) = (&fs[i], &got[i]);
        if f.name != g.field_name || f.type_name != g.type_name || (m.info && join(&f.docs) != g.field_docs) {
            return false;
        }
        if !same_ext(r, &f.n, &g.data, m) {
            return false;
        }
    }
    true
}
fn same_u(v: u128, n: u8, h: H, got: &ParsedData, m: Cmp) -> bool {
    let (k, g, s) = match got {
        ParsedData::PrimitiveU8 { value, specialty } => (1, *value as u128, specialty),
        ParsedData::PrimitiveU16 { value, specialty } => (2, *value as u128, specialty),
        ParsedData::PrimitiveU32 { value, specialty } => (4, *value as u128, specialty),
        ParsedData::PrimitiveU64 { value, specialty } => (8, *value as u128, specialty),
        ParsedData::PrimitiveU128 { value, specialty } => (16, *value, specialty),
        _ => return false,
    };
    k == n && g == v && (!m.hints || *s == specialty(h))
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    a == b
}
fn same_bits<T: bitvec::store::BitStore, O: bitvec::order::BitOrder>(w: &[bool], b: &bitvec::vec::BitVec<T, O>) -> bool {
    if w.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..w.len() {
        ok &= w[i] == b[i];
    }
    ok
}
/// Little-endian two's complement / magnitude bytes of a big integer, 32 of them.
fn big_bytes(digits: impl Iterator<Item = u64>, neg: bool) -> Option<[u8; 32]> {
    let mut w = [0u64; 4];
    let mut i = 0;
    for d in digits {
        if i == 4 {
            return None;
        }
        w[i] = d;
        i += 1;
    }
    if neg {
        let mut carry = true;
        for x in w.iter_mut() {
            let (y, c) = (!*x).overflowing_add(carry as u64);
            *x = y;
            carry = c;
        }
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes());
    }
    Some(out)
}
pub fn same(r: &PortableRegistry, v: &V, got: &ParsedData, m: Cmp) -> bool {
    match (v, got) {
        (V::Bool(a), ParsedData::PrimitiveBool(b)) => a == b,
        (V::Char(a), ParsedData::PrimitiveChar(b)) => *a == *b as u32,
        (V::Str(a, h), ParsedData::Text { text, specialty }) => {
            same_bytes(a, text.as_bytes()) && (!m.hints || (*specialty == SpecialtyStr::SpecName) == (*h == H::SpecName))
        }
        (V::U(x, n, h), g) => same_u(*x, *n, *h, g, m),
        (V::I(x, 1), ParsedData::PrimitiveI8(b)) => *x as u8 == *b as u8,
        (V::I(x, 2), ParsedData::PrimitiveI16(b)) => *x as u16 == *b as u16,
        (V::I(x, 4), ParsedData::PrimitiveI32(b)) => *x as u32 == *b as u32,
        (V::I(x, 8), ParsedData::PrimitiveI64(b)) => *x as u64 == *b as u64,
        (V::I(x, 16), ParsedData::PrimitiveI128(b)) => *x == *b as u128,
        (V::Big(a, false), ParsedData::PrimitiveU256(b)) => {
            big_bytes(b.iter_u64_digits(), false).map_or(false, |x| same_bytes(a, &x))
        }
        (V::Big(a, true), ParsedData::PrimitiveI256(b)) => {
            let neg = b.sign() == num_bigint::Sign::Minus;
            (neg == (a[31] >> 7 == 1)) && big_bytes(b.iter_u64_digits(), neg).map_or(false, |x| same_bytes(a, &x))
        }
        (V::Comp(fs), ParsedData::Composite(g)) => same_fields(r, fs, g, m),
        (V::Var { name, docs, fields }, ParsedData::Variant(g)) => {
            *name == g.variant_name && (!m.info || join(docs) == g.variant_docs) && same_fields(r, fields, &g.fields, m)
        }
        (V::Empty, ParsedData::EmptyEnum) => true,
        (V::Seq(vs, info), g) => same_seq(r, vs, info, g, m),
        (V::Tup(ns), ParsedData::Tuple(g)) => {
            ns.len() == g.len() && ns.iter().zip(g.iter()).all(|(a, b)| same_ext(r, a, b, m))
        }
        (V::Bits(1, false, w), ParsedData::BitVecU8Lsb0(b)) => same_bits(w, b),
        (V::Bits(2, false, w), ParsedData::BitVecU16Lsb0(b)) => same_bits(w, b),
        (V::Bits(4, false, w), ParsedData::BitVecU32Lsb0(b)) => same_bits(w, b),
        (V::Bits(8, false, w), ParsedData::BitVecU64Lsb0(b)) => same_bits(w, b),
        (V::Bits(1, true, w), ParsedData::BitVecU8Msb0(b)) => same_bits(w, b),
        (V::Bits(2, true, w), ParsedData::BitVecU16Msb0(b)) => same_bits(w, b),
        (V::Bits(4, true, w), ParsedData::BitVecU32Msb0(b)) => same_bits(w, b),
        (V::Bits(8, true, w), ParsedData::BitVecU64Msb0(b)) => same_bits(w, b),
        (V::Era(a), ParsedData::Era(b)) => a == b,
        (V::Fix(s, a, h), g) => same_fix(*s, a, *h, g, m),
        (V::Per(Sp::Perbill, x), ParsedData::Perbill(b)) => *x == b.deconstruct() as u64,
        (V::Per(Sp::Permill, x), ParsedData::Permill(b)) => *x == b.deconstruct() as u64,
        (V::Per(Sp::Percent, x), ParsedData::Percent(b)) => *x == b.deconstruct() as u64,
        (V::Per(Sp::Perquintill, x), ParsedData::Perquintill(b)) => *x == b.deconstruct(),
        (V::Per(Sp::PerU16, x), ParsedData::PerU16(b)) => *x == b.deconstruct() as u64,
        (V::Pallet { event, inner, pallet, name, docs, fields }, g) => {
            let p = match (event, g) {
                (false, ParsedData::Call(c)) => &c.0,
                (true, ParsedData::Event(c)) => &c.0,
                _ => return false,
            };
            *pallet == p.pallet_name
                && *name == p.variant_name
                && (!m.info || (join(docs) == p.variant_docs && one_info(ty(r, *inner), &p.pallet_info)))
                && same_fields(r, fields, &p.fields, m)
        }
        _ => false,
    }
}

fn same_fix(s: Sp, a: &[u8], h: H, g: &ParsedData, m: Cmp) -> bool {
    let b: &[u8] = match (s, g) {
        (Sp::Account, ParsedData::Id(x)) => &x.0,
        (Sp::H160, ParsedData::H160(x)) => &x.0,
        (Sp::H512, ParsedData::H512(x)) => &x.0,
        (Sp::PubEd, ParsedData::PublicEd25519(x)) => &x.0,
        (Sp::PubSr, ParsedData::PublicSr25519(x)) => &x.0,
        (Sp::PubEc, ParsedData::PublicEcdsa(x)) => &x.0,
        (Sp::SigEd, ParsedData::SignatureEd25519(x)) => &x.0,
        (Sp::SigSr, ParsedData::SignatureSr25519(x)) => &x.0,
        (Sp::SigEc, ParsedData::SignatureEcdsa(x)) => &x.0,
        (Sp::H256, ParsedData::H256(x)) if !m.hints || (h != H::Genesis && h != H::BlockHash) => &x.0,
        (Sp::H256, ParsedData::GenesisHash(x)) if !m.hints || h == H::Genesis => &x.0,
        (Sp::H256, ParsedData::BlockHash(x)) if !m.hints || h == H::BlockHash => &x.0,
        _ => return false,
    };
    same_bytes(a, b)
}
fn same_ints<T: Copy + Into<u128>>(vs: &[V], g: &[T], width: u8) -> bool {
    if vs.len() != g.len() {
        return false;
    }
    for i in 0..vs.len() {
        match &vs[i] {
            V::U(x, n, h) if *n == width && specialty(*h) == S::None => {
                if *x != g[i].into() {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}
/// Is this a sequence of plain `u8` that shows as bytes?
fn is_bytes(v: &V) -> bool {
    match v {
        V::Seq(e, _) => !e.is_empty() && e.iter().all(|x| matches!(x, V::U(_, 1, h) if specialty(*h) == S::None)),
        _ => false,
    }
}
fn same_seq(r: &PortableRegistry, vs: &[V], info: &[u32], got: &ParsedData, m: Cmp) -> bool {
    // sets of plain unsigned integers, and sets of byte strings, are collected
    let plain_ints = !vs.is_empty() && vs.iter().all(|x| matches!(x, V::U(_, _, h) if specialty(*h) == S::None));
    match got {
        ParsedData::Sequence(s) => {
            if m.info && !same_info(r, info, &s.element_info) {
                return false;
            }
            match &s.data {
                Sequence::U8(g) => plain_ints && same_ints(vs, g, 1),
                Sequence::U16(g) => plain_ints && same_ints(vs, g, 2),
                Sequence::U32(g) => plain_ints && same_ints(vs, g, 4),
                Sequence::U64(g) => plain_ints && same_ints(vs, g, 8),
                Sequence::U128(g) => plain_ints && same_ints(vs, g, 16),
                Sequence::VecU8 { sequence, inner_element_info } => {
                    if vs.len() != sequence.len() || vs.is_empty() || !is_bytes(&vs[0]) {
                        return false;
                    }
                    for i in 0..vs.len() {
                        match &vs[i] {
                            V::Seq(e, ei) => {
                                if !(e.is_empty() || is_bytes(&vs[i])) || e.len() != sequence[i].len() {
                                    return false;
                                }
                                if !e.is_empty() && !same_ints(e, &sequence[i], 1) {
                                    return false;
                                }
                                if m.info && !same_info(r, ei, inner_element_info) {
                                    return false;
                                }
                            }
                            _ => return false,
                        }
                    }
                    true
                }
            }
        }
        ParsedData::SequenceRaw(s) => {
            if plain_ints || vs.len() != s.data.len() || (m.info && !same_info(r, info, &s.element_info)) {
                return false;
            }
            if vs.len() > 0 && is_bytes(&vs[0]) && vs.iter().all(|x| is_bytes(x) || matches!(x, V::Seq(e, _) if e.is_empty())) {
                // byte strings are collected whenever the first is non-empty
                return false;
            }
            vs.iter().zip(s.data.iter()).all(|(a, b)| same(r, a, b, m))
        }
        _ => false,
    }
}
#[allow(dead_code)]
pub fn enc<T: Encode>(t: &T) -> Vec<u8> {
    t.encode()
}
