//! P13, P14: what a reader gets to see.
const FILE_ID: u64 = 5;
use crate::rt::*;
use crate::mk::Meta;
use alloc::{format, string::{String, ToString}, vec, vec::Vec};
use bitvec::prelude::{BitVec, Lsb0, Msb0};
use num_bigint::{BigInt, BigUint};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, Path};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{common::{AccountId32, AsBase58}, ecdsa, ed25519, sr25519};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::error::SignableError;
use substrate_parser::printing_balance::{AsBalance, Currency};
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as U};
use substrate_parser::{ShortSpecs, TransactionParsed, TransactionUnmarkedParsed};

const PREFIX: [&str; 11] = ["T", "G", "M", "k", "", "m", "u", "n", "p", "f", "a"];

/// Reference for printed balances: the digits with a point, and the order of
/// magnitude of the prefix in steps of 1000 (4 for `T`, -6 for `a`).
///
/// The leading digit of a balance of `n` digits stands for 10^(n-1-decimals)
/// units. The prefix is the one that puts one to three digits before the
/// point, as far as there are prefixes. Each digit is shown; a number with
/// too few digits to reach the point gets zeros.
fn balance(d: &[u8], decimals: u8) -> (Vec<u8>, i32) {
    let (n, dec) = (d.len() as i32, decimals as i32);
    let lead = n - 1 - dec;
    let step = lead.div_euclid(3).clamp(-6, 4);
    // digits before the point
    let before = lead - 3 * step + 1;
    let mut out = Vec::new();
    if before <= 0 {
        out.extend_from_slice(b"0.");
        for _ in 0..-before {
            out.push(b'0');
        }
        out.extend_from_slice(d);
    } else {
        for i in 0..core::cmp::max(n, before) {
            if i == before {
                out.push(b'.');
            }
            out.push(if i < n { d[i as usize] } else { b'0' });
        }
    }
    (out, step)
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// Zero has no leading digit: all that is asked is that it shows as zeros and
/// is as precise as the chain's decimals.
fn zero(g: &Currency, decimals: u8, unit: &str) {
    let t = g.number.as_bytes();
    let mut frac = None;
    let mut ok = !t.is_empty() && t[0] == b'0';
    for c in t {
        if *c == b'.' {
            ok &= frac.is_none();
            frac = Some(0u32);
        } else {
            ok &= *c == b'0';
            frac = frac.map(|x| x + 1);
        }
    }
    check!(ok, "zero shows as zero");
    let mut found = false;
    for k in 0..11i32 {
        let p = PREFIX[k as usize];
        if g.units.len() == p.len() + unit.len() && g.units.starts_with(p) && g.units.ends_with(unit) {
            found |= frac.unwrap_or(0) as i32 + 3 * (k - 4) == decimals as i32;
        }
    }
    check!(found, "zero is as precise as the decimals");
}
fn compare(d: &[u8], g: &Currency, decimals: u8, unit: &str) {
    let (t, step) = balance(d, decimals);
    check!(same(&t, g.number.as_bytes()), "number");
    let p = PREFIX[(4 - step) as usize];
    check!(g.units.len() == p.len() + unit.len() && g.units.starts_with(p) && same(g.units[p.len()..].as_bytes(), unit.as_bytes()), "units");
}
fn unit() -> String {
    let u = arr::<2>();
    assume(u[0] < 128 && u[1] < 128);
    match choice(2) {
        0 => String::new(),
        _ => unsafe { String::from_utf8_unchecked(u.to_vec()) },
    }
}
fn print(k: u64, v: u128, decimals: u8, unit: &str) -> Currency {
    match k {
        0 => u8::convert_balance_pretty(v as u8, decimals, unit),
        1 => u16::convert_balance_pretty(v as u16, decimals, unit),
        2 => u32::convert_balance_pretty(v as u32, decimals, unit),
        3 => u64::convert_balance_pretty(v as u64, decimals, unit),
        _ => u128::convert_balance_pretty(v, decimals, unit),
    }
}
const MAX: [&[u8]; 5] = [b"255", b"65535", b"4294967295", b"18446744073709551615", b"340282366920938463463374607431768211455"];
/// P13. Balances by their digits. Parameter 0: width of the number.
#[no_mangle]
pub extern "C" fn h_balance() {
    let k = pick(0, 5);
    let max = MAX[k as usize];
    let n = choice(max.len() as u64) as usize + 1;
    let d = bytes(n);
    let mut ok = n == 1 || d[0] != b'0';
    let (mut below, mut equal) = (false, n == max.len());
    for i in 0..n {
        ok &= d[i] >= b'0' && d[i] <= b'9';
        if n == max.len() {
            below |= equal & (d[i] < max[i]);
            equal &= d[i] == max[i];
        }
    }
    assume(ok && (n < max.len() || below | equal));
    let v = number(&d);
    let decimals = choice(256) as u8;
    let u = unit();
    let g = print(k, v, decimals, &u);
    note(1, g.number.len() as u64);
    if n == 1 && d[0] == b'0' {
        cover(2);
        zero(&g, decimals, &u);
    } else {
        cover(1);
        compare(&d, &g, decimals, &u);
    }
}
/// Texts of characters of one to four bytes, `n` of them, the last one any of
/// its length.
fn wide(n: usize) -> String {
    let mut v = Vec::new();
    for k in 0..n {
        let last = k + 1 == n;
        let x = if last { byte() } else { 0x95 };
        assume(!last || x >= 0x80 && x < 0xc0);
        match (k + n) % 4 {
            0 => v.push(b'a'),
            1 => v.extend_from_slice(&[0xc3, x]),
            2 => v.extend_from_slice(&[0xe2, 0x9c, x]),
            _ => v.extend_from_slice(&[0xf0, 0x9f, 0x98, x]),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// P13. Units of any text. Parameter 0: length of the longest, 1: width.
#[no_mangle]
pub extern "C" fn h_balance_unit() {
    let max = param(0) as usize;
    let u = if flag() { crate::rt::name(0, max) } else { wide(choice(6) as usize + 1) };
    let k = pick(1, 5);
    let v = [0, 7, 120, 250, 100][choice(5) as usize];
    let decimals = [0, 1, 2, 3, 10, 17, 255][choice(7) as usize];
    let g = print(k, v, decimals, &u);
    if v == 0 {
        cover(2);
        zero(&g, decimals, &u);
    } else {
        cover(1);
        compare(v.to_string().as_bytes(), &g, decimals, &u);
    }
}
/// P13. All of `u8` and `u16`, printed by the real `core`.
#[no_mangle]
pub extern "C" fn h_balance_small() {
    let k = pick(0, 2);
    let v = if k == 0 { byte() as u16 } else { u16::from_le_bytes(arr()) };
    let decimals = choice(256) as u8;
    let g = print(k, v as u128, decimals, "U");
    let all = [v / 10000, v / 1000 % 10, v / 100 % 10, v / 10 % 10, v % 10];
    let mut from = 4;
    if v >= 10000 {
        from = 0;
    } else if v >= 1000 {
        from = 1;
    } else if v >= 100 {
        from = 2;
    } else if v >= 10 {
        from = 3;
    }
    let d: Vec<u8> = all[from..].iter().map(|x| b'0' + *x as u8).collect();
    if v == 0 {
        cover(2);
        zero(&g, decimals, "U");
    } else {
        cover(1);
        compare(&d, &g, decimals, "U");
    }
}

// ---- P14: cards ----
const NAME: &str = "westmint";
fn info(docs: &str, path: &[&str]) -> Info {
    Info { docs: docs.into(), path: Path::<PortableForm> { segments: crate::mk::strs(path) } }
}
/// What is known about a type: nothing, docs, a path, or several of these.
fn infos(k: u64) -> Vec<Info> {
    match k {
        0 => vec![],
        1 => vec![info("D", &[])],
        2 => vec![info("", &["m", "T"]), info("E\nF", &["x"])],
        4 => vec![info("D", &["x"]), info("D", &["x"]), info("D", &[])],
        _ => vec![info("", &["m", "n", "T"])],
    }
}
fn ext(data: ParsedData, k: u64) -> ExtendedData {
    ExtendedData { data, info: infos(k) }
}
fn fd(name: Option<&str>, docs: &str, data: ExtendedData) -> FieldData {
    FieldData { field_name: name.map(|x| x.into()), type_name: Some("Balance".into()), field_docs: docs.into(), data }
}
/// A number of up to three digits, or the longest of its width.
fn digits(k: u64) -> u128 {
    let n = [1, 2, MAX[k as usize].len()][choice(3) as usize];
    digits_n(k, n)
}
fn digits_n(k: u64, n: usize) -> u128 {
    let max = MAX[k as usize];
    let d = bytes(n);
    let mut ok = n == 1 || d[0] != b'0';
    for i in 0..n {
        ok &= d[i] >= b'0' && d[i] <= b'9';
    }
    assume(ok && (n < 3 || d[0] < max[0]));
    number(&d)
}
const SPEC: [U; 7] = [U::None, U::Balance, U::Tip, U::TipAsset, U::Nonce, U::SpecVersion, U::TxVersion];
fn special(k: u64, specialty: U, v: u128) -> ParsedData {
    match k {
        0 => ParsedData::PrimitiveU8 { value: v as u8, specialty },
        1 => ParsedData::PrimitiveU16 { value: v as u16, specialty },
        2 => ParsedData::PrimitiveU32 { value: v as u32, specialty },
        3 => ParsedData::PrimitiveU64 { value: v as u64, specialty },
        _ => ParsedData::PrimitiveU128 { value: v, specialty },
    }
}
fn text() -> String {
    let n = choice(3) as usize;
    let b = bytes(n);
    let mut ok = true;
    for x in &b {
        ok &= *x < 128;
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}
/// The first and the last bytes are arbitrary.
fn ends<const N: usize>() -> [u8; N] {
    let mut a = [0x5a; N];
    (a[0], a[1], a[N - 1]) = (byte(), byte(), byte());
    a
}
macro_rules! some_bits {
    ($t:ty, $o:ty) => {{
        let mut v = BitVec::<$t, $o>::new();
        let n = choice(4);
        for _ in 0..n {
            v.push(flag());
        }
        v
    }};
}
const LEAF: u64 = 47;
fn leaf(k: u64) -> ParsedData {
    use ParsedData as D;
    match k {
        0..=4 => special(k, SPEC[choice(7) as usize], digits(k)),
        5 => D::Text { text: text(), specialty: SpecialtyStr::None },
        6 => D::Text { text: text(), specialty: SpecialtyStr::SpecName },
        7 => D::EmptyEnum,
        8 => D::PrimitiveBool(flag()),
        9 => D::PrimitiveChar(*['a', '\u{e9}', '\u{1F600}'].get(choice(3) as usize).unwrap()),
        10 => D::PrimitiveI8(byte() as i8),
        11 => D::PrimitiveI16([0, -1, i16::MIN, i16::MAX][choice(4) as usize]),
        12 => D::PrimitiveI32([0, -1, i32::MIN, i32::MAX][choice(4) as usize]),
        13 => D::PrimitiveI64([0, -1, i64::MIN, i64::MAX][choice(4) as usize]),
        14 => D::PrimitiveI128([0, -1, i128::MIN, i128::MAX][choice(4) as usize]),
        15 => D::PrimitiveI256(BigInt::from([0, -17, i64::MIN, i64::MAX][choice(4) as usize])),
        16 => D::PrimitiveU256(BigUint::from([0, 17, u64::MAX][choice(3) as usize])),
        17 => D::H160(H160(ends())),
        18 => D::H256(H256(ends())),
        19 => D::H512(H512(ends())),
        20 => D::BlockHash(H256(ends())),
        21 => D::GenesisHash(H256(ends())),
        22 => D::Era(Era::Immortal),
        23 => D::Era(Era::Mortal([4, 64, 65536][choice(3) as usize], [0, 9, 65535][choice(3) as usize])),
        24 => D::PerU16(PerU16::from_parts(digits(1) as u16)),
        25 => D::Percent(Percent::from_parts([0, 7, 100][choice(3) as usize])),
        26 => D::Permill(Permill::from_parts([0, 7, 1000000][choice(3) as usize])),
        27 => D::Perbill(Perbill::from_parts([0, 7, 1000000000][choice(3) as usize])),
        28 => D::Perquintill(Perquintill::from_parts([0, 7, 1000000000000000000][choice(3) as usize])),
        29 => D::SignatureEd25519(ed25519::Signature(ends())),
        30 => D::SignatureSr25519(sr25519::Signature(ends())),
        31 => D::SignatureEcdsa(ecdsa::Signature(ends())),
        32 => D::BitVecU8Lsb0(some_bits!(u8, Lsb0)),
        33 => D::BitVecU16Lsb0(some_bits!(u16, Lsb0)),
        34 => D::BitVecU32Lsb0(some_bits!(u32, Lsb0)),
        35 => D::BitVecU8Msb0(some_bits!(u8, Msb0)),
        36 => D::BitVecU16Msb0(some_bits!(u16, Msb0)),
        37 => D::BitVecU32Msb0(some_bits!(u32, Msb0)),
        #[cfg(target_pointer_width = "64")]
        38 => D::BitVecU64Lsb0(some_bits!(u64, Lsb0)),
        #[cfg(target_pointer_width = "64")]
        39 => D::BitVecU64Msb0(some_bits!(u64, Msb0)),
        #[cfg(target_pointer_width = "32")]
        38 => D::BitVecU64Lsb0(some_bits!(u32, Lsb0)),
        #[cfg(target_pointer_width = "32")]
        39 => D::BitVecU64Msb0(some_bits!(u32, Msb0)),
        40 => set(Sequence::U8(blob(2))),
        41 => set(Sequence::U16(digit_set(1).iter().map(|x| *x as u16).collect())),
        42 => set(Sequence::U32(digit_set(2).iter().map(|x| *x as u32).collect())),
        43 => set(Sequence::U64(digit_set(3).iter().map(|x| *x as u64).collect())),
        44 => set(Sequence::U128(digit_set(4))),
        45 => {
            let n = choice(3);
            let sequence = (0..n).map(|_| blob(1)).collect();
            set(Sequence::VecU8 { sequence, inner_element_info: infos(choice(3)) })
        }
        _ => D::Tuple(vec![]),
    }
}
fn digit_set(k: u64) -> Vec<u128> {
    let n = choice(3);
    (0..n).map(|_| digits(k)).collect()
}
fn set(data: Sequence) -> ParsedData {
    ParsedData::Sequence(SequenceData { element_info: infos(choice(3)), data })
}
/// One part of a nested value.
fn part(depth: u64) -> ParsedData {
    use ParsedData as D;
    let k = choice(if depth > 0 { 7 + 14 } else { 7 });
    match k {
        0 => special(4, U::Balance, digits_n(4, 2)),
        1 => special(2, U::Tip, digits_n(2, 2)),
        2 => D::Text { text: String::from_utf8(vec![b'a', byte() & 127]).unwrap_or_default(), specialty: SpecialtyStr::None },
        3 => D::Composite(vec![]),
        4 => D::EmptyEnum,
        5 => set(Sequence::U8(vec![b'a', byte()])),
        6 => D::PrimitiveU8 { value: byte(), specialty: U::None },
        _ => node(k - 7, depth),
    }
}
fn docs() -> &'static str {
    ["", "d", "d\n\ne"][choice(3) as usize]
}
fn node(k: u64, depth: u64) -> ParsedData {
    use ParsedData as D;
    let x = ext(part(depth - 1), 2);
    let docs = || if depth == 1 { docs() } else { "d" };
    let y = ext(D::PrimitiveU64 { value: 77, specialty: U::Balance }, 3);
    let call = |pallet: &str, f: Vec<FieldData>| PalletSpecificData {
        pallet_info: info("P", &["p"]),
        variant_docs: "v".into(),
        pallet_name: pallet.into(),
        variant_name: "go".into(),
        fields: f,
    };
    let pallet = || ["Balances", "NominationPools", "Balance", "Staking"][choice(if depth == 1 { 4 } else { 2 }) as usize];
    match k {
        0 => D::Composite(vec![fd(None, docs(), x)]),
        1 => D::Composite(vec![fd(Some("a"), docs(), x)]),
        2 => D::Composite(vec![fd(Some("a"), docs(), x), fd(Some("b"), "", y)]),
        3 => D::Composite(vec![fd(None, "", y), fd(None, docs(), x)]),
        4 => D::Tuple(vec![x]),
        5 => D::Tuple(vec![y, x]),
        6 => D::Variant(VariantData { variant_name: "V".into(), variant_docs: "v".into(), fields: vec![fd(None, docs(), x)] }),
        7 => D::Variant(VariantData { variant_name: "W".into(), variant_docs: "".into(), fields: vec![fd(Some("a"), docs(), x), fd(Some("b"), "q", y)] }),
        8 => D::Variant(VariantData { variant_name: "X".into(), variant_docs: docs().into(), fields: vec![] }),
        9 => D::SequenceRaw(SequenceRawData { element_info: infos(1), data: vec![x.data, y.data] }),
        10 => D::SequenceRaw(SequenceRawData { element_info: infos(1), data: vec![] }),
        11 => D::Call(Call(call(pallet(), vec![fd(None, docs(), x)]))),
        12 => D::Call(Call(call(pallet(), vec![fd(Some("a"), docs(), x), fd(Some("b"), "", y)]))),
        _ => D::Event(Event(call(pallet(), vec![fd(None, "", y), fd(None, docs(), x)]))),
    }
}

// The reference.
struct Out<'a> {
    specs: &'a ShortSpecs,
    cards: Vec<ExtendedCard>,
}
fn flat(i: &[Info]) -> Vec<InfoFlat> {
    i.iter()
        .map(|i| {
            let mut p = String::new();
            for (k, s) in i.path.segments.iter().enumerate() {
                if k > 0 {
                    p.push_str(" >> ");
                }
                p.push_str(s);
            }
            InfoFlat { docs: if i.docs.is_empty() { None } else { Some(i.docs.clone()) }, path_flat: if p.is_empty() { None } else { Some(p) } }
        })
        .collect()
}
fn only_docs(d: &str) -> Vec<InfoFlat> {
    if d.is_empty() { vec![] } else { vec![InfoFlat { docs: Some(d.into()), path_flat: None }] }
}
impl Out<'_> {
    fn put(&mut self, parser_card: ParserCard, indent: u32, info_flat: Vec<InfoFlat>) {
        self.cards.push(ExtendedCard { parser_card, indent, info_flat });
    }
    fn currency(&self, v: u128) -> Currency {
        let d = v.to_string().into_bytes();
        assume(d[0] != b'0' || d.len() > 1);
        let (t, step) = balance(&d, self.specs.decimals);
        Currency { number: String::from_utf8(t).unwrap(), units: format!("{}{}", PREFIX[(4 - step) as usize], self.specs.unit) }
    }
    fn number(&mut self, v: u128, raw: ParserCard, s: &U, at: u32, units: bool, i: Vec<InfoFlat>) {
        let c = match s {
            U::None => raw,
            U::Balance if units => ParserCard::Balance(self.currency(v)),
            U::Balance => ParserCard::BalanceRaw(v.to_string()),
            U::Tip => ParserCard::Tip(self.currency(v)),
            U::TipAsset => ParserCard::TipAsset(v.to_string()),
            U::Nonce => ParserCard::Nonce(v.to_string()),
            U::SpecVersion => ParserCard::NameSpecVersion { name: NAME.into(), version: v.to_string() },
            U::TxVersion => ParserCard::TxVersion(v.to_string()),
        };
        self.put(c, at, i);
    }
    fn bytes(&mut self, v: &[u8], at: u32, i: Vec<InfoFlat>, e: &[Info]) {
        self.put(ParserCard::SequenceU8 { hex: hex(v), text: core::str::from_utf8(v).ok().map(|x| x.into()), element_info_flat: flat(e) }, at, i);
    }
    /// Fields with the things said about them.
    fn fields(&mut self, f: &[FieldData], at: u32, units: bool) {
        if f.len() == 1 && f[0].field_name.is_none() {
            self.transparent(vec![], &f[0], at, units);
            return;
        }
        for (k, f) in f.iter().enumerate() {
            let c = match &f.field_name {
                Some(n) => ParserCard::FieldName(n.clone()),
                None => ParserCard::FieldNumber(k + 1),
            };
            self.put(c, at, only_docs(&f.field_docs));
            self.any(&f.data.data, at + 1, units, flat(&f.data.info));
        }
    }
    /// The only field, without a name: just its content.
    fn transparent(&mut self, mut i: Vec<InfoFlat>, f: &FieldData, at: u32, units: bool) {
        i.extend(only_docs(&f.field_docs));
        i.extend(flat(&f.data.info));
        self.any(&f.data.data, at, units, i);
    }
    fn pallet(&mut self, c: &PalletSpecificData, item: ParserCard, at: u32) {
        self.put(ParserCard::PalletName(c.pallet_name.clone()), at, flat(core::slice::from_ref(&c.pallet_info)));
        self.put(item, at + 1, only_docs(&c.variant_docs));
        let units = c.pallet_name == "Balances" || c.pallet_name == "Staking";
        self.fields(&c.fields, at + 2, units);
    }
    fn any(&mut self, d: &ParsedData, at: u32, units: bool, i: Vec<InfoFlat>) {
        macro_rules! plain {
            ($($k:ident)*) => {
                match d {
                    $(ParsedData::$k(v) => { self.put(ParserCard::$k(v.clone()), at, i); return; })*
                    _ => {}
                }
            };
        }
        match d {
            ParsedData::PrimitiveU8 { value, specialty } => self.number(*value as u128, ParserCard::PrimitiveU8(*value), specialty, at, units, i),
            ParsedData::PrimitiveU16 { value, specialty } => self.number(*value as u128, ParserCard::PrimitiveU16(*value), specialty, at, units, i),
            ParsedData::PrimitiveU32 { value, specialty } => self.number(*value as u128, ParserCard::PrimitiveU32(*value), specialty, at, units, i),
            ParsedData::PrimitiveU64 { value, specialty } => self.number(*value as u128, ParserCard::PrimitiveU64(*value), specialty, at, units, i),
            ParsedData::PrimitiveU128 { value, specialty } => self.number(*value, ParserCard::PrimitiveU128(*value), specialty, at, units, i),
            ParsedData::Text { text, specialty: SpecialtyStr::None } => self.put(ParserCard::Text(text.clone()), at, i),
            ParsedData::Text { text, specialty: SpecialtyStr::SpecName } => self.put(ParserCard::SpecName(text.clone()), at, i),
            ParsedData::EmptyEnum => self.put(ParserCard::EmptyEnum, at, i),
            ParsedData::Call(c) => self.pallet(&c.0, ParserCard::CallName(c.0.variant_name.clone()), at),
            ParsedData::Event(c) => self.pallet(&c.0, ParserCard::EventName(c.0.variant_name.clone()), at),
            ParsedData::Composite(f) if f.is_empty() => {}
            ParsedData::Composite(f) if f.len() == 1 && f[0].field_name.is_none() => self.transparent(i, &f[0], at, units),
            ParsedData::Composite(f) => {
                self.put(ParserCard::CompositeAnnounced(f.len()), at, i);
                self.fields(f, at + 1, units);
            }
            ParsedData::Tuple(f) if f.is_empty() => {}
            ParsedData::Tuple(f) => {
                self.put(ParserCard::TupleAnnounced(f.len()), at, i);
                for x in f {
                    self.any(&x.data, at + 1, units, flat(&x.info));
                }
            }
            ParsedData::Variant(v) => {
                self.put(ParserCard::EnumAnnounced, at, i);
                self.put(ParserCard::EnumVariantName(v.variant_name.clone()), at + 1, only_docs(&v.variant_docs));
                self.fields(&v.fields, at + 2, units);
            }
            ParsedData::SequenceRaw(q) => {
                self.put(ParserCard::SequenceAnnounced { len: q.data.len(), element_info_flat: flat(&q.element_info) }, at, i);
                for x in &q.data {
                    self.any(x, at + 1, units, vec![]);
                }
            }
            ParsedData::Sequence(q) => {
                macro_rules! numbers {
                    ($v:ident, $k:ident) => {{
                        self.put(ParserCard::SequenceAnnounced { len: $v.len(), element_info_flat: flat(&q.element_info) }, at, i);
                        for x in $v {
                            self.put(ParserCard::$k(*x), at + 1, vec![]);
                        }
                    }};
                }
                match &q.data {
                    Sequence::U8(v) => self.bytes(v, at, i, &q.element_info),
                    Sequence::U16(v) => numbers!(v, PrimitiveU16),
                    Sequence::U32(v) => numbers!(v, PrimitiveU32),
                    Sequence::U64(v) => numbers!(v, PrimitiveU64),
                    Sequence::U128(v) => numbers!(v, PrimitiveU128),
                    Sequence::VecU8 { sequence, inner_element_info } => {
                        self.put(ParserCard::SequenceAnnounced { len: sequence.len(), element_info_flat: flat(&q.element_info) }, at, i);
                        for x in sequence {
                            self.bytes(x, at + 1, vec![], inner_element_info);
                        }
                    }
                }
            }
            _ => {
                plain!(BitVecU8Lsb0 BitVecU16Lsb0 BitVecU32Lsb0 BitVecU64Lsb0 BitVecU8Msb0 BitVecU16Msb0 BitVecU32Msb0 BitVecU64Msb0
                    BlockHash GenesisHash Era H160 H256 H512 PerU16 Percent Permill Perbill Perquintill PrimitiveBool PrimitiveChar
                    PrimitiveI8 PrimitiveI16 PrimitiveI32 PrimitiveI64 PrimitiveI128 PrimitiveI256 PrimitiveU256
                    SignatureEd25519 SignatureSr25519 SignatureEcdsa);
            }
        }
    }
}
fn hex(v: &[u8]) -> String {
    let mut h = Vec::new();
    for b in v {
        h.push(b"0123456789abcdef"[(b >> 4) as usize]);
        h.push(b"0123456789abcdef"[(b & 15) as usize]);
    }
    unsafe { String::from_utf8_unchecked(h) }
}
fn bits<T: bitvec::store::BitStore, O: bitvec::order::BitOrder>(v: &BitVec<T, O>) -> String {
    let mut s = String::from("[");
    for (k, b) in v.iter().enumerate() {
        if k > 0 {
            s.push_str(", ");
        }
        s.push(if *b { '1' } else { '0' });
    }
    s.push(']');
    s
}
/// How a card reads: what it is, and its content. Sets and bytes come with
/// what is known about their elements when `about`.
fn line(c: &ParserCard, about: bool) -> (&'static str, Option<String>) {
    use ParserCard as C;
    let elements = |e: &[InfoFlat]| {
        let mut s = String::new();
        if about && !e.is_empty() {
            s.push_str(", element info: [");
            for (k, x) in e.iter().enumerate() {
                if k > 0 {
                    s.push(',');
                }
                s.push_str(&known(x));
            }
            s.push(']');
        }
        s
    };
    let (a, b) = match c {
        C::Balance(a) => ("Balance", format!("{} {}", a.number, a.units)),
        C::BalanceRaw(a) => ("Balance Raw", a.clone()),
        C::BitVecU8Lsb0(a) => ("BitVec<u8, Lsb0>", bits(a)),
        C::BitVecU16Lsb0(a) => ("BitVec<u16, Lsb0>", bits(a)),
        C::BitVecU32Lsb0(a) => ("BitVec<u32, Lsb0>", bits(a)),
        C::BitVecU64Lsb0(a) => ("BitVec<u64, Lsb0>", bits(a)),
        C::BitVecU8Msb0(a) => ("BitVec<u8, Msb0>", bits(a)),
        C::BitVecU16Msb0(a) => ("BitVec<u16, Msb0>", bits(a)),
        C::BitVecU32Msb0(a) => ("BitVec<u32, Msb0>", bits(a)),
        C::BitVecU64Msb0(a) => ("BitVec<u64, Msb0>", bits(a)),
        C::BlockHash(a) => ("Block Hash", hex(&a.0)),
        C::CallName(a) => ("Call", a.clone()),
        C::CompositeAnnounced(a) => ("Struct", format!("{a} field(s)")),
        C::EmptyEnum => return ("Enum With No Variants", None),
        C::EnumAnnounced => return ("Enum", None),
        C::EnumVariantName(a) => ("Enum Variant Name", a.clone()),
        C::Era(Era::Immortal) => ("Era", "Immortal".into()),
        C::Era(Era::Mortal(period, phase)) => ("Era", format!("Mortal, phase: {phase}, period: {period}")),
        C::EventName(a) => ("Event", a.clone()),
        C::FieldName(a) => ("Field Name", a.clone()),
        C::FieldNumber(a) => ("Field Number", a.to_string()),
        C::GenesisHash(a) => ("Genesis Hash", hex(&a.0)),
        C::H160(a) => ("H160", hex(&a.0)),
        C::H256(a) => ("H256", hex(&a.0)),
        C::H512(a) => ("H512", hex(&a.0)),
        C::Id(a) => ("Id", a.base58.clone()),
        C::NameSpecVersion { name, version } => ("Chain", format!("{name}{version}")),
        C::Nonce(a) => ("Nonce", a.clone()),
        C::PalletName(a) => ("Pallet", a.clone()),
        C::PerU16(a) => ("PerU16", a.deconstruct().to_string()),
        C::Percent(a) => ("Percent", a.deconstruct().to_string()),
        C::Permill(a) => ("Permill", a.deconstruct().to_string()),
        C::Perbill(a) => ("Perbill", a.deconstruct().to_string()),
        C::Perquintill(a) => ("Perquintill", a.deconstruct().to_string()),
        C::PrimitiveBool(a) => ("Bool", (if *a { "true" } else { "false" }).into()),
        C::PrimitiveChar(a) => ("Char", String::from(*a)),
        C::PrimitiveI8(a) => ("i8", a.to_string()),
        C::PrimitiveI16(a) => ("i16", a.to_string()),
        C::PrimitiveI32(a) => ("i32", a.to_string()),
        C::PrimitiveI64(a) => ("i64", a.to_string()),
        C::PrimitiveI128(a) => ("i128", a.to_string()),
        C::PrimitiveI256(a) => ("BigInt", a.to_string()),
        C::PrimitiveU8(a) => ("u8", a.to_string()),
        C::PrimitiveU16(a) => ("u16", a.to_string()),
        C::PrimitiveU32(a) => ("u32", a.to_string()),
        C::PrimitiveU64(a) => ("u64", a.to_string()),
        C::PrimitiveU128(a) => ("u128", a.to_string()),
        C::PrimitiveU256(a) => ("BigUint", a.to_string()),
        C::PublicEd25519(a) => ("PublicKey Ed25519", a.base58.clone()),
        C::PublicSr25519(a) => ("PublicKey Sr25519", a.base58.clone()),
        C::PublicEcdsa(a) => ("PublicKey Ecdsa", a.base58.clone()),
        C::SequenceAnnounced { len, element_info_flat } => ("Sequence", format!("{len} element(s){}", elements(element_info_flat))),
        C::SequenceU8 { hex: _, text: Some(t), element_info_flat } => ("Text", format!("{t}{}", elements(element_info_flat))),
        C::SequenceU8 { hex, text: None, element_info_flat } => ("Sequence u8", format!("{hex}{}", elements(element_info_flat))),
        C::SignatureEd25519(a) => ("Signature Ed25519", hex(&a.0)),
        C::SignatureSr25519(a) => ("Signature Sr25519", hex(&a.0)),
        C::SignatureEcdsa(a) => ("Signature Ecdsa", hex(&a.0)),
        C::SpecName(a) => ("Spec Name", a.clone()),
        C::Text(a) => ("Text", a.clone()),
        C::Tip(a) => ("Tip", format!("{} {}", a.number, a.units)),
        C::TipAsset(a) => ("Tip Asset", a.clone()),
        C::TupleAnnounced(a) => ("Tuple", format!("{a} element(s)")),
        C::TxVersion(a) => ("Tx Version", a.clone()),
    };
    (a, Some(b))
}
fn known(i: &InfoFlat) -> String {
    format!("(docs: {}, path: {})", i.docs.as_deref().unwrap_or("None"), i.path_flat.as_deref().unwrap_or("None"))
}
fn read(c: &ExtendedCard, about: bool) -> String {
    let mut s = String::new();
    for _ in 0..c.indent {
        s.push_str("  ");
    }
    let pad = s.clone();
    let (a, b) = line(&c.parser_card, about);
    s.push_str(a);
    if let Some(b) = b {
        s.push_str(": ");
        s.push_str(&b);
    }
    if about {
        for i in &c.info_flat {
            s.push('\n');
            s.push_str(&pad);
            s.push_str(&known(i));
        }
    }
    s
}
fn specs(decimals: u8) -> ShortSpecs {
    ShortSpecs { base58prefix: 42, decimals, unit: "UNIT".into() }
}
fn same_cards(want: &[ExtendedCard], got: &[ExtendedCard]) {
    check!(want.len() == got.len(), "number of cards");
    for k in 0..want.len() {
        check!(want[k].indent == got[k].indent, "indent");
        check!(want[k].parser_card == got[k].parser_card, "card");
        check!(want[k].info_flat == got[k].info_flat, "information");
    }
}
fn joined(c: &[ExtendedCard], about: bool) -> String {
    let mut s = String::new();
    for (k, c) in c.iter().enumerate() {
        if k > 0 {
            s.push('\n');
        }
        s.push_str(&read(c, about));
    }
    s
}
/// P14. Every kind of value alone, as cards and as text. Parameter 0: kind.
#[no_mangle]
pub extern "C" fn h_card_leaf() {
    let c = choice(5);
    let d = ext(leaf(pick(0, LEAF)), c);
    let (at, units) = ([0, 2, 1, 0, 3][c as usize], flag());
    let s = specs([0, 12, 2, 18, 1][c as usize]);
    let mut w = Out { specs: &s, cards: vec![] };
    w.any(&d.data, at, units, flat(&d.info));
    let got = d.card(at, units, &s, NAME);
    same_cards(&w.cards, &got);
    check!(d.show(at, units, &s, NAME) == joined(&w.cards, false), "shown");
    check!(d.show_with_docs(at, units, &s, NAME) == joined(&w.cards, true), "shown with docs");
    note(1, got.len() as u64);
    cover(1);
}
/// P14. Nested values as cards. Parameter 0: outermost kind; 1: depth below.
#[no_mangle]
pub extern "C" fn h_card() {
    let d = ext(node(pick(0, 14), param(1) + 1), [0, 1, 4][choice(3) as usize]);
    let units = flag();
    let s = specs(10);
    let mut w = Out { specs: &s, cards: vec![] };
    w.any(&d.data, 1, units, flat(&d.info));
    let got = d.card(1, units, &s, NAME);
    same_cards(&w.cards, &got);
    if param(1) == 0 {
        check!(d.show(1, units, &s, NAME) == joined(&w.cards, false), "shown");
        check!(d.show_with_docs(1, units, &s, NAME) == joined(&w.cards, true), "shown with docs");
    }
    note(1, got.len() as u64);
    cover(1);
}
/// P14. Deep, wide and long values. Parameter 0: which, 1: how deep or long.
#[no_mangle]
pub extern "C" fn h_long_card() {
    use ParsedData as D;
    let n = param(1) as usize;
    let y = |k: usize| ext(D::PrimitiveU16 { value: k as u16, specialty: U::Balance }, k as u64 % 3);
    let call = |f: Vec<FieldData>| PalletSpecificData { pallet_info: info("", &[]), variant_docs: "v".into(), pallet_name: "Balances".into(), variant_name: "go".into(), fields: f };
    let d = match pick(0, 6) {
        // deep
        0 => {
            let mut d = D::PrimitiveU8 { value: byte(), specialty: U::None };
            for k in 0..n {
                let x = ext(d, (n - k) as u64 % 3);
                d = match k % 5 {
                    0 => D::Composite(vec![fd(Some("a"), "d", x), fd(Some("b"), "", y(k))]),
                    1 => D::Tuple(vec![y(k), x]),
                    2 => D::Variant(VariantData { variant_name: "V".into(), variant_docs: "v".into(), fields: vec![fd(None, "d", x)] }),
                    3 => D::SequenceRaw(SequenceRawData { element_info: vec![], data: vec![x.data] }),
                    _ => D::Call(Call(call(vec![fd(Some("c"), "", x)]))),
                };
            }
            d
        }
        // wide
        1 => D::Composite((0..n).map(|k| fd(Some("a"), if k % 3 == 0 { "d" } else { "" }, y(k))).collect()),
        2 => D::Tuple((0..n).map(y).collect()),
        3 => D::Event(Event(call((0..n).map(|k| fd(if k % 2 == 0 { None } else { Some("x") }, "", y(k))).collect()))),
        // long
        4 => {
            let mut t: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
            t[n / 2] = byte() & 127;
            D::Text { text: unsafe { String::from_utf8_unchecked(t) }, specialty: SpecialtyStr::None }
        }
        _ => {
            let mut t: Vec<u8> = (0..n).map(|k| k as u8).collect();
            t[n - 1] = byte();
            D::Sequence(SequenceData { element_info: vec![], data: if flag() { Sequence::U8(t) } else { Sequence::U16(t.iter().map(|x| *x as u16).collect()) } })
        }
    };
    let s = specs(10);
    let mut w = Out { specs: &s, cards: vec![] };
    w.any(&d, 3, true, vec![]);
    let got = ExtendedData { data: d, info: vec![] };
    same_cards(&w.cards, &got.card(3, true, &s, NAME));
    if n < 100 {
        check!(got.show(3, true, &s, NAME) == joined(&w.cards, false), "shown");
    }
    cover(1);
}
/// P14. Balances in calls and events of pallets of any name, directly and in
/// a call inside. Parameter 0: longest name.
#[no_mangle]
pub extern "C" fn h_name_card() {
    let s = specs(10);
    let p = crate::rt::name(0, param(0) as usize);
    let of = |p: &str, x: ParsedData| PalletSpecificData {
        pallet_info: info("P", &["p"]),
        variant_docs: "v".into(),
        pallet_name: p.into(),
        variant_name: "go".into(),
        fields: vec![fd(Some("a"), "", ext(x, 0)), fd(Some("b"), "", ext(special(2, U::Balance, 77), 0))],
    };
    let x = special(4, U::Balance, 120);
    let y = special(4, U::Balance, 5);
    let d = match choice(5) {
        0 => ParsedData::Call(Call(of(&p, x))),
        1 => ParsedData::Event(Event(of(&p, x))),
        2 => ParsedData::Call(Call(of("Balances", ParsedData::Call(Call(of(&p, x)))))),
        3 => ParsedData::Call(Call(of(&p, ParsedData::Call(Call(of("Utility", x)))))),
        _ => ParsedData::Tuple(vec![ext(ParsedData::Call(Call(of(&p, x))), 0), ext(y, 0)]),
    };
    let mut w = Out { specs: &s, cards: vec![] };
    let show = flag();
    w.any(&d, 1, show, vec![]);
    let got = ExtendedData { data: d, info: vec![] }.card(1, show, &s, NAME);
    same_cards(&w.cards, &got);
    cover(1);
}
/// P14. Any names and docs in a value, among them empty ones and texts of
/// several lines (no empty part of a path: it is no name). Parameter 0: what is any, 1: longest text.
#[no_mangle]
pub extern "C" fn h_name_show() {
    use ParsedData as D;
    let w = pick(0, 7);
    let any = || if flag() { crate::rt::name((w == 5) as usize, param(1) as usize) } else { wide(choice(4) as usize + 1) };
    let t = any();
    let is = |k: u64, d: &str| -> String { if w == k { t.clone() } else { d.into() } };
    let n = || ext(D::PrimitiveU16 { value: 77, specialty: U::Balance }, 0);
    let about = || -> Vec<Info> {
        match w {
            4 => vec![info(&t, &[]), info("z", &["y"])],
            5 => vec![info("", &["a", &t]), info("d", &["y"]), info(&t, &[&t])],
            _ => vec![],
        }
    };
    let f = || vec![FieldData { field_name: Some(is(0, "a")), type_name: None, field_docs: is(1, ""), data: ExtendedData { data: n().data, info: about() } }, fd(None, "", n())];
    let c = || PalletSpecificData {
        pallet_info: about().pop().unwrap_or_else(|| info("P", &["p"])),
        variant_docs: is(1, "v"),
        pallet_name: is(2, "Balances"),
        variant_name: is(3, "go"),
        fields: f(),
    };
    let d = match choice(6) {
        0 => D::Composite(f()),
        1 => D::Variant(VariantData { variant_name: is(3, "V"), variant_docs: is(1, ""), fields: f() }),
        2 => D::Call(Call(c())),
        3 => D::Event(Event(c())),
        4 => D::Tuple(vec![n(), ExtendedData { data: D::Text { text: is(6, "x"), specialty: if flag() { SpecialtyStr::None } else { SpecialtyStr::SpecName } }, info: about() }]),
        _ => D::SequenceRaw(SequenceRawData { element_info: about(), data: vec![D::Composite(f()), D::Sequence(SequenceData { element_info: about(), data: Sequence::U8(is(6, "x").into_bytes()) })] }),
    };
    let d = ExtendedData { data: d, info: about() };
    let s = ShortSpecs { base58prefix: 42, decimals: 10, unit: is(6, "UNIT") };
    let name = is(6, NAME);
    let mut w = Out { specs: &s, cards: vec![] };
    w.any(&d.data, 1, true, flat(&d.info));
    same_cards(&w.cards, &d.card(1, true, &s, &name));
    check!(d.show(1, true, &s, &name) == joined(&w.cards, false), "shown");
    check!(d.show_with_docs(1, true, &s, &name) == joined(&w.cards, true), "shown with docs");
    cover(1);
}
/// P14. A transaction: the call, and each extension in its place.
#[no_mangle]
pub extern "C" fn h_card_tx() {
    let s = specs(10);
    let call = match node(11 + choice(2), 1) {
        ParsedData::Call(c) => c,
        _ => return,
    };
    let mut extensions = match choice(5) {
        0 => vec![],
        4 => (0..2).map(|_| ext(special(2, U::Tip, 77), 4)).collect(),
        1 => vec![ext(special(4, U::Balance, digits_n(4, 2)), 1)],
        2 => vec![ext(ParsedData::Composite(vec![]), 1), ext(special(2, U::Tip, digits_n(2, 2)), 2)],
        _ => vec![ext(ParsedData::Composite(vec![fd(None, "d", ext(special(3, U::Balance, 45), 1)), fd(None, "", ext(ParsedData::EmptyEnum, 0))]), 0)],
    };
    extensions.push(ext(special(0, SPEC[choice(7) as usize], digits_n(0, 2)), 0));
    let mut w = Out { specs: &s, cards: vec![] };
    for e in &extensions {
        w.any(&e.data, 0, true, flat(&e.info));
    }
    let mut wc = Out { specs: &s, cards: vec![] };
    wc.any(&ParsedData::Call(call.clone()), 0, false, vec![]);
    match choice(3) {
        0 => {
            let got = TransactionUnmarkedParsed { call, extensions }.card(&s, NAME);
            same_cards(&wc.cards, &got.call);
            same_cards(&w.cards, &got.extensions);
        }
        1 => {
            let t: TransactionParsed<(), Meta> = TransactionParsed { call_result: Ok(call), extensions };
            let got = t.card(&s, NAME);
            same_cards(&w.cards, &got.extensions);
            match got.call_result {
                Ok(c) => same_cards(&wc.cards, &c),
                Err(_) => check!(false, "call"),
            }
        }
        _ => {
            let e: SignableError<(), Meta> = SignableError::NotACall(3);
            let t: TransactionParsed<(), Meta> = TransactionParsed { call_result: Err(e), extensions };
            let got = t.card(&s, NAME);
            same_cards(&w.cards, &got.extensions);
            check!(matches!(got.call_result, Err(SignableError::NotACall(3))), "error");
            cover(2);
        }
    }
    cover(1);
}
/// P14. Accounts and keys show as addresses of the chain, with `std` also as
/// pictures. Parameter 0: kind.
#[no_mangle]
pub extern "C" fn h_card_id() {
    let k = pick(0, 4);
    let mut a = [[0x11u8; 33], [0u8; 33], [0xff; 33]][choice(3) as usize];
    let base58prefix = if flag() {
        a[choice(33) as usize] = [0, 1, 0x80][choice(3) as usize];
        42
    } else {
        a[0] = choice(4) as u8;
        [0, 1, 42, 63, 64, 65, 255, 256, 2007, 10000, 16383][choice(11) as usize]
    };
    let s = ShortSpecs { base58prefix, decimals: 10, unit: "UNIT".into() };
    let short: [u8; 32] = a[..32].try_into().unwrap();
    let (d, want, label) = match k {
        0 => (ParsedData::Id(AccountId32(short)), AccountId32(short).to_base58_string(base58prefix), "  Id: "),
        1 => (ParsedData::PublicEd25519(ed25519::Public(short)), ed25519::Public(short).to_base58_string(base58prefix), "  PublicKey Ed25519: "),
        2 => (ParsedData::PublicSr25519(sr25519::Public(short)), sr25519::Public(short).to_base58_string(base58prefix), "  PublicKey Sr25519: "),
        _ => (ParsedData::PublicEcdsa(ecdsa::Public(a)), ecdsa::Public(a).to_base58_string(base58prefix), "  PublicKey Ecdsa: "),
    };
    let e = ext(d, 2);
    let c = e.card(1, false, &s, NAME);
    check!(c.len() == 1 && c[0].indent == 1 && c[0].info_flat == flat(&e.info), "card");
    let (kind, id) = match &c[0].parser_card {
        ParserCard::Id(x) => (0, x),
        ParserCard::PublicEd25519(x) => (1, x),
        ParserCard::PublicSr25519(x) => (2, x),
        ParserCard::PublicEcdsa(x) => (3, x),
        _ => return check!(false, "kind of card"),
    };
    check!(kind == k && id.base58 == want, "address");
    // the stand-in of the picture is its account
    #[cfg(feature = "std")]
    check!(id.identicon[0] == 0xa5 && id.identicon[1..] == a[..if k == 3 { 33 } else { 32 }], "picture");
    check!(e.show(1, false, &s, NAME) == format!("{label}{want}"), "shown");
    cover(1);
}
