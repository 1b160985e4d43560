//! P19: what is taken out of V14 and V15 metadata.
const FILE_ID: u64 = 7;
use crate::mk::*;
use crate::rt::*;
use alloc::{string::String, vec, vec::Vec};
use frame_metadata::{v14, v15};
use scale_info::{form::PortableForm, PortableRegistry, TypeDefPrimitive as P};
use substrate_parser::traits::*;

type M14 = v14::RuntimeMetadataV14;
type M15 = v15::RuntimeMetadataV15;

fn ext14(i: &str, t: u32, a: u32) -> v14::SignedExtensionMetadata<PortableForm> {
    v14::SignedExtensionMetadata { identifier: i.into(), ty: t.into(), additional_signed: a.into() }
}
fn ext15(i: &str, t: u32, a: u32) -> v15::SignedExtensionMetadata<PortableForm> {
    v15::SignedExtensionMetadata { identifier: i.into(), ty: t.into(), additional_signed: a.into() }
}
/// A pallet: its name, and its constants by name, type and value.
type Pallet = (&'static str, Vec<(&'static str, u32, Vec<u8>)>);
pub fn both(r: PortableRegistry, ps: &[Pallet], xt: u32, version: u8, params: [u32; 4], exts: &[(&str, u32, u32)]) -> (M14, M15) {
    let c14 = |c: &(&'static str, u32, Vec<u8>)| v14::PalletConstantMetadata { name: c.0.into(), ty: c.1.into(), value: c.2.clone(), docs: vec![] };
    let a = M14 {
        types: r.clone(),
        pallets: ps
            .iter()
            .enumerate()
            .map(|(i, p)| v14::PalletMetadata {
                name: p.0.into(),
                storage: None,
                calls: None,
                event: None,
                constants: p.1.iter().map(c14).collect(),
                error: None,
                index: i as u8,
            })
            .collect(),
        extrinsic: v14::ExtrinsicMetadata { ty: xt.into(), version, signed_extensions: exts.iter().map(|e| ext14(e.0, e.1, e.2)).collect() },
        ty: 0.into(),
    };
    let b = M15 {
        types: r,
        pallets: ps
            .iter()
            .enumerate()
            .map(|(i, p)| v15::PalletMetadata {
                name: p.0.into(),
                storage: None,
                calls: None,
                event: None,
                constants: p.1.iter().map(c14).collect(),
                error: None,
                index: i as u8,
                docs: vec![],
            })
            .collect(),
        extrinsic: v15::ExtrinsicMetadata {
            version,
            address_ty: params[0].into(),
            call_ty: params[1].into(),
            signature_ty: params[2].into(),
            extra_ty: params[3].into(),
            signed_extensions: exts.iter().map(|e| ext15(e.0, e.1, e.2)).collect(),
        },
        ty: 0.into(),
        apis: vec![],
        outer_enums: v15::OuterEnums { call_enum_ty: 0.into(), event_enum_ty: 0.into(), error_enum_ty: 0.into() },
        custom: v15::CustomMetadata { map: Default::default() },
    };
    (a, b)
}
fn versions(a: &M14, b: &M15) -> (Option<SpecNameVersion>, Option<SpecNameVersion>) {
    (AsMetadata::<()>::spec_name_version(a).ok(), AsMetadata::<()>::spec_name_version(b).ok())
}
const MAX: [&[u8]; 5] = [b"255", b"65535", b"4294967295", b"18446744073709551615", b"340282366920938463463374607431768211455"];
/// Digits of a number of width `k`: one, two, or the most there are.
pub fn digits(k: usize) -> Vec<u8> {
    let max = MAX[k];
    let d = bytes([1, 2, max.len()][choice(3) as usize]);
    let n = d.len();
    let mut ok = n == 1 || d[0] != b'0';
    let (mut below, mut equal) = (false, n == max.len());
    for i in 0..n {
        ok &= d[i] >= b'0' && d[i] <= b'9';
        if n == max.len() {
            below |= equal & (d[i] < max[i]);
            equal &= d[i] == max[i];
        }
    }
    assume(ok && (n < max.len() || below | equal));
    d
}
fn text(v: &mut Vec<u8>) -> String {
    let s = blob(2);
    for c in &s {
        assume(*c < 0x80);
    }
    v.push(4 * s.len() as u8);
    v.extend(&s);
    String::from_utf8(s).unwrap()
}
/// What a constant says: the first name and version, and how many there are.
#[derive(Default)]
struct Said {
    names: Vec<String>,
    versions: Vec<Vec<u8>>,
    /// Versions that hide in a struct of their own; these may be overlooked.
    hidden: Vec<Vec<u8>>,
}
const KINDS: u64 = 9;
fn fields(b: &mut Reg, width: usize, n: u64, v: &mut Vec<u8>) -> (Vec<Fld>, Said) {
    let (s, u) = (b.prim(P::Str), b.prim(P::U8));
    let num = b.prim(PRIMS[3 + width].clone());
    let mut said = Said::default();
    let mut f = vec![];
    for i in 0..n {
        let int = |v: &mut Vec<u8>| {
            let d = digits(width);
            let x = number(&d);
            v.extend(&x.to_le_bytes()[..1 << width]);
            d
        };
        match choice(KINDS) {
            0 => {
                f.push(field(Some("spec_name"), s, Some("RuntimeString")));
                said.names.push(text(v));
            }
            1 => {
                f.push(field(Some("spec_version"), num, Some("u32")));
                said.versions.push(int(v));
            }
            2 => {
                f.push(field(Some("impl_name"), s, Some("RuntimeString")));
                v.extend([4, b'x']);
            }
            3 => {
                f.push(field(Some("impl_version"), num, Some(["u32", "Balance"][(i & 1) as usize])));
                v.extend(bytes(1 << width));
            }
            4 => {
                f.push(field(Some("transaction_version"), u, Some("u32")));
                v.push(byte());
            }
            // the names on types that hold neither
            5 => {
                f.push(field(Some("spec_version"), s, None));
                v.extend([4, b'7']);
            }
            6 => {
                f.push(field(Some("spec_name"), u, None));
                v.push(byte());
            }
            7 => {
                let w = b.comp(&["m", "Wrap"], vec![field(None, num, None)]);
                f.push(field(Some("spec_version"), w, None));
                let d = int(v);
                said.hidden.push(d);
            }
            _ => {
                // not named at all
                f.push(field(None, s, None));
                v.extend([4, b'y']);
            }
        }
    }
    (f, said)
}
/// P19. The version constant. Parameter 0: width of the numbers, 1: fields at
/// most.
#[no_mangle]
pub extern "C" fn h_version() {
    let mut b = Reg::new();
    let mut v = vec![];
    let n = choice(param(1) + 1);
    let (f, said) = fields(&mut b, param(0) as usize, n, &mut v);
    let t = b.comp(&["sp_version", "RuntimeVersion"], f);
    // value in full?
    let cut = choice(3);
    if cut == 1 {
        v.push(byte());
    } else if cut == 2 {
        assume(!v.is_empty());
        v.pop();
    }
    let (a, b) = both(b.done(), &[("System", vec![("Version", t, v)])], 0, 4, [0; 4], &[]);
    if crate::p_why::on() {
        return crate::p_why::versions(&a, &b);
    }
    let (x, y) = versions(&a, &b);
    check!(x == y, "V14 and V15 differ");
    match x {
        None => {
            cover(2);
            check!(cut != 0 || !said.hidden.is_empty() || said.names.len() != 1 || said.versions.len() != 1, "no version");
        }
        Some(x) => {
            cover(1);
            check!(cut == 0, "version from a wrong constant");
            let vs = if said.versions.is_empty() { &said.hidden } else { &said.versions };
            check!(said.names.len() == 1 && vs.len() == 1, "made-up version");
            check!(x.spec_name == said.names[0], "spec name");
            check!(x.printed_spec_version.as_bytes() == &vs[0][..], "spec version");
        }
    }
}
/// P19. Many pallets, constants and extensions, long names. Parameter 0: how many.
#[no_mangle]
pub extern "C" fn h_long_meta() {
    let n = param(0) as usize;
    let mut b = Reg::new();
    let s = b.prim(P::Str);
    let u = b.prim(P::U32);
    let t = b.comp(&["sp_version", "RuntimeVersion"], vec![field(Some("spec_name"), s, None), field(Some("impl_name"), s, None), field(Some("spec_version"), u, None)]);
    let x = bytes(5);
    let mut name: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
    name[n - 1] = x[4] & 127;
    let d = digits(2);
    let version = number(&d) as u32;
    let mut v = vec![];
    for _ in 0..2 {
        v.extend_from_slice(&parity_scale_codec::Encode::encode(&parity_scale_codec::Compact(n as u32)));
        v.extend_from_slice(&name);
    }
    v.extend_from_slice(&version.to_le_bytes());
    let at = [0, n / 2, n - 1];
    let (p, c) = (at[choice(3) as usize], at[choice(3) as usize]);
    let constants: Vec<(&str, u32, Vec<u8>)> = (0..n).map(|k| if k == c { ("Version", t, v.clone()) } else { ("Ver", u, x.clone()) }).collect();
    let ps: Vec<Pallet> = (0..n).map(|k| if k == p { ("System", constants.clone()) } else { ("Sys", vec![("Version", u, vec![])]) }).collect();
    let es: Vec<(&str, u32, u32)> = (0..n).map(|k| ("E", k as u32, n as u32 - k as u32)).collect();
    let (a, b) = both(b.done(), &ps, 0, 4, [0; 4], &es);
    let (x, y) = versions(&a, &b);
    check!(x == y, "V14 and V15 differ");
    check!(x.is_some(), "no version");
    let x = x.unwrap();
    check!(x.spec_name.as_bytes() == &name[..], "spec name");
    check!(x.printed_spec_version.as_bytes() == &d[..], "spec version");
    for e in [AsMetadata::<()>::signed_extensions(&a).ok(), AsMetadata::<()>::signed_extensions(&b).ok()] {
        let e = e.unwrap();
        check!(e.len() == n && e.iter().enumerate().all(|(k, e)| e.ty.id == k as u32 && e.additional_signed.id == n as u32 - k as u32), "extensions");
    }
    cover(1);
}
/// P19. Version constants of one byte, and other types of constants.
#[no_mangle]
pub extern "C" fn h_version_type() {
    let mut b = Reg::new();
    let (s, u) = (b.prim(P::Str), b.prim(P::U8));
    let two = |b: &mut Reg| b.comp(&["m", "V"], vec![field(Some("spec_name"), s, None), field(Some("spec_version"), u, None)]);
    let mut ok = false;
    let t = match choice(8) {
        0 => {
            ok = true;
            two(&mut b)
        }
        1 => b.tuple(&[s, u]),
        2 => s,
        3 => b.comp(&["m", "V"], vec![field(Some("spec_name"), s, None), field(None, u, None)]),
        4 => {
            let f = vec![field(Some("spec_name"), s, None), field(Some("spec_version"), u, None)];
            b.var(&["m", "V"], vec![variant("A", 4, f)])
        }
        5 => {
            let x = two(&mut b);
            b.array(x, 1)
        }
        6 => {
            let x = b.prim(P::I8);
            b.comp(&["m", "V"], vec![field(Some("spec_name"), s, None), field(Some("spec_version"), x, None)])
        }
        // not there
        _ => 700,
    };
    let v = blob(4);
    let d = v.clone();
    let (a, b) = both(b.done(), &[("System", vec![("Version", t, v)])], 0, 4, [0; 4], &[]);
    if crate::p_why::on() {
        return crate::p_why::versions(&a, &b);
    }
    let (x, y) = versions(&a, &b);
    check!(x == y, "V14 and V15 differ");
    // name of ASCII or not
    let good = d.len() >= 2 && d[0] as usize == 4 * (d.len() - 2) && core::str::from_utf8(&d[1..d.len() - 1]).is_ok();
    match x {
        None => {
            cover(2);
            check!(!ok || !good, "no version");
        }
        Some(x) => {
            cover(1);
            check!(ok && good, "made-up version");
            check!(x.spec_name.as_bytes() == &d[1..d.len() - 1], "spec name");
            let mut n = d[d.len() - 1];
            let mut p = vec![];
            loop {
                p.insert(0, b'0' + n % 10);
                n /= 10;
                if n == 0 {
                    break;
                }
            }
            check!(x.printed_spec_version.as_bytes() == &p[..], "spec version");
        }
    }
}
/// P19. Where the constant stands. Parameter 0: pallets at most.
#[no_mangle]
pub extern "C" fn h_version_place() {
    let mut b = Reg::new();
    let (s, u) = (b.prim(P::Str), b.prim(P::U8));
    let t = b.comp(&["m", "V"], vec![field(Some("spec_name"), s, None), field(Some("spec_version"), u, None)]);
    let r = b.done();
    let mut ps: Vec<Pallet> = vec![];
    let mut want: Option<Option<u8>> = None;
    for i in 0..choice(param(0) + 1) {
        let name = ["System", "Systems", "Other", "Sys"][choice(4) as usize];
        assume(name != "System" || want.is_none());
        let mut cs = vec![];
        let mut found = None;
        for j in 0..choice(3) {
            let c = ["Version", "Versions", "Block"][choice(3) as usize];
            assume(c != "Version" || found.is_none());
            let x = (i * 2 + j) as u8;
            if c == "Version" {
                found = Some(b'a' + x);
            }
            // all could be read
            cs.push((c, t, vec![4, b'a' + x, 9]));
        }
        if name == "System" {
            want = Some(found);
        }
        ps.push((name, cs));
    }
    let (a, b) = both(r, &ps, 0, 4, [0; 4], &[]);
    if crate::p_why::on() {
        return crate::p_why::versions(&a, &b);
    }
    let (x, y) = versions(&a, &b);
    check!(x == y, "V14 and V15 differ");
    match (x, want.flatten()) {
        (None, None) => cover(2),
        (Some(x), Some(w)) => {
            cover(1);
            check!(x.spec_name.as_bytes() == [w] && x.printed_spec_version == "9", "another constant");
        }
        (None, Some(_)) => check!(false, "not found"),
        (Some(_), None) => check!(false, "found elsewhere"),
    }
}
const NAMES: [&str; 6] = ["Address", "Call", "Signature", "Extra", "Address2", "call"];
/// P19. The types that make an extrinsic. Parameter 0: parameters at most.
#[no_mangle]
pub extern "C" fn h_params() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let h = b.prim(P::U16);
    let x = &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"][..];
    let (good, bad) = (b.seq(u), b.seq(h));
    let kind = choice(10);
    let t = match kind {
        0 => b.comp(x, vec![field(None, good, None)]),
        1 => b.seq(u),
        // nothing of the sort
        2 => b.comp(x, vec![field(None, bad, None)]),
        3 => b.comp(x, vec![field(None, good, None), field(None, good, None)]),
        4 => b.comp(x, vec![]),
        5 => bad,
        6 => u,
        7 => {
            let a = b.array(u, 4);
            b.comp(x, vec![field(None, a, None)])
        }
        8 => b.var(x, vec![variant("A", 0, vec![field(None, good, None)])]),
        _ => 700,
    };
    // parameters in any order, each at most once
    let mut ps = vec![];
    let mut want = [None; 6];
    for i in 0..if kind < 2 { choice(param(0) + 1) } else { 4 } {
        // the right parameters do not make it an extrinsic
        let k = if kind < 2 { choice(6) } else { i } as usize;
        assume(want[k].is_none());
        let ty = if kind > 1 || flag() { Some(30 + i as u32) } else { None };
        want[k] = Some(ty);
        ps.push((NAMES[k], ty));
    }
    if kind < 9 {
        b.params(t, &ps);
    }
    let version = byte();
    let p15 = [byte() as u32, byte() as u32, byte() as u32, byte() as u32];
    let (a, c) = both(b.done(), &[], t, version, p15, &[]);
    let w: Vec<Option<u32>> = want.iter().map(|x| x.flatten()).collect();
    if crate::p_why::on() {
        let call = AsMetadata::<()>::call_ty(&a).err();
        for e in [AsCompleteMetadata::<()>::extrinsic_type_params(&a).err(), call] {
            if let Some(e) = e {
                cover(2);
                check!(crate::p_why::params_error(&e, t, kind < 9, kind < 2, &w), "reason against the extrinsic");
            }
        }
        return cover(1);
    }
    check!(AsCompleteMetadata::<()>::extrinsic_version(&a) == Ok(version), "version");
    check!(AsCompleteMetadata::<()>::extrinsic_version(&c) == Ok(version), "version");
    let call = AsMetadata::<()>::call_ty(&a).ok().map(|x| x.id);
    match AsCompleteMetadata::<()>::extrinsic_type_params(&a) {
        Ok(g) => {
            cover(1);
            check!(kind < 2, "no extrinsic");
            check!(w[0] == Some(g.address_ty.id) && w[1] == Some(g.call_ty.id), "address or call");
            check!(w[2] == Some(g.signature_ty.id) && w[3] == Some(g.extra_ty.id), "signature or extra");
            check!(call == w[1], "call");
        }
        Err(_) => {
            cover(2);
            check!(kind >= 2 || w[..4].iter().any(|x| x.is_none()), "parameters not found");
            check!(call.is_none() || (kind < 2 && call == w[1]), "made-up call");
        }
    }
    match AsCompleteMetadata::<()>::extrinsic_type_params(&c) {
        Ok(g) => check!(g.address_ty.id == p15[0] && g.call_ty.id == p15[1] && g.signature_ty.id == p15[2] && g.extra_ty.id == p15[3], "V15"),
        Err(_) => check!(false, "V15"),
    }
    check!(AsMetadata::<()>::call_ty(&c).map(|x| x.id) == Ok(p15[1]), "V15 call");
}
/// P19. Signed extensions. Parameter 0: how many at most.
#[no_mangle]
pub extern "C" fn h_exts() {
    let mut es = vec![];
    for _ in 0..choice(param(0) + 1) {
        let n = ["CheckSpecVersion", "CheckGenesis", "X"][choice(3) as usize];
        es.push((n, byte() as u32, byte() as u32));
    }
    let (a, b) = both(Reg::new().done(), &[], 0, 4, [0; 4], &es);
    let (x, y) = (AsMetadata::<()>::signed_extensions(&a).unwrap(), AsMetadata::<()>::signed_extensions(&b).unwrap());
    check!(x == y, "V14 and V15 differ");
    check!(x.len() == es.len(), "another number");
    for i in 0..x.len() {
        cover(1);
        check!(x[i].identifier == es[i].0 && x[i].ty.id == es[i].1 && x[i].additional_signed.id == es[i].2, "another extension");
    }
}
/// P19. The registry. Parameter 0: types at most.
#[no_mangle]
pub extern "C" fn h_types() {
    let mut b = Reg::new();
    let n = choice(param(0) + 1);
    for _ in 0..n {
        let p = PRIMS[choice(15) as usize].clone();
        b.prim(p);
    }
    let r = b.done();
    let (a, c) = both(r.clone(), &[], 0, 4, [0; 4], &[]);
    let (x, y) = (AsMetadata::<()>::types(&a), AsMetadata::<()>::types(&c));
    check!(x == r && y == r, "other types");
    let id = choice(n + 2) as u32;
    match ResolveType::<()>::resolve_ty(&x, id, &mut ()) {
        Ok(t) => {
            cover(1);
            check!((id as u64) < n && t == r.types[id as usize].ty, "another type");
        }
        Err(_) => {
            cover(2);
            check!(id as u64 >= n, "type not found");
        }
    }
}
/// P19. Any name of the pallet, the constant or the fields. Parameter 0:
/// which of them, 1: longest name.
#[no_mangle]
pub extern "C" fn h_name_version() {
    let mut b = Reg::new();
    let (s, u) = (b.prim(P::Str), b.prim(P::U8));
    let k = pick(0, 4);
    let x = name(0, param(1) as usize);
    let or = |i: u64, n: &str| if k == i { x.clone() } else { n.into() };
    let (n0, n1) = (or(0, "spec_name"), or(1, "spec_version"));
    let mut f = vec![field(Some(&n0), s, Some("String")), field(Some(&n1), u, Some("Balance"))];
    let mut v = vec![4, b'n', 7];
    if flag() {
        f.swap(0, 1);
        v = vec![7, 4, b'n'];
    }
    let t = b.comp(&["m", "V"], f);
    let (pallet, constant) = (or(2, "System"), or(3, "Version"));
    let right = x == ["spec_name", "spec_version", "System", "Version"][k as usize];
    let (mut a, mut c) = both(b.done(), &[("Other", vec![("Version", t, v.clone())]), ("P", vec![("Block", t, v.clone()), ("C", t, v)])], 0, 4, [0; 4], &[]);
    a.pallets[1].name = pallet.clone();
    a.pallets[1].constants[1].name = constant.clone();
    c.pallets[1].name = pallet;
    c.pallets[1].constants[1].name = constant;
    let (x, y) = versions(&a, &c);
    check!(x == y, "V14 and V15 differ");
    match x {
        Some(x) => {
            cover(1);
            check!(right, "version under another name");
            check!(x.spec_name == "n" && x.printed_spec_version == "7", "another version");
        }
        None => {
            cover(2);
            check!(!right, "version not found");
        }
    }
}
/// P19. Any name of a parameter of the extrinsic. Parameter 0: which, 1:
/// longest name.
#[no_mangle]
pub extern "C" fn h_name_params() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let good = b.seq(u);
    let path = &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"][..];
    let t = b.comp(path, vec![field(None, good, None)]);
    let k = pick(0, 5) as usize;
    let x = name(0, param(1) as usize);
    let mut names = NAMES;
    let mut other = false;
    for i in 0..4 {
        other |= i != k && x == NAMES[i];
    }
    assume(!other);
    names[k] = &x;
    let at = choice(3) as usize;
    let ps: Vec<(&str, Option<u32>)> = (0..5).map(|i| (names[(i + at) % 5], Some(30 + ((i + at) % 5) as u32))).collect();
    b.params(t, &ps);
    let r = k == 4 || x == NAMES[k];
    let (a, _) = both(b.done(), &[], t, 4, [0; 4], &[]);
    let call = AsMetadata::<()>::call_ty(&a).ok().map(|x| x.id);
    match AsCompleteMetadata::<()>::extrinsic_type_params(&a) {
        Ok(g) => {
            cover(1);
            check!(r, "parameter under another name");
            check!(g.address_ty.id == 30 && g.call_ty.id == 31 && g.signature_ty.id == 32 && g.extra_ty.id == 33, "another parameter");
            check!(call == Some(31), "another call");
        }
        Err(_) => {
            cover(2);
            check!(!r, "parameter not found");
            check!(call.is_none() || (k != 1 && call == Some(31)), "made-up call");
        }
    }
}
/// P19. Any path of the extrinsic: four names of the right lengths, one name
/// of any length. Parameter 0: longest name.
#[no_mangle]
pub extern "C" fn h_name_extrinsic() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let good = b.seq(u);
    let want = ["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"];
    let k = choice(5) as usize;
    let x: Vec<String> = (0..4).map(|i| if i == k { name(0, param(0) as usize) } else if k == 4 { crate::rt::text(want[i].len()) } else { want[i].into() }).collect();
    let path: Vec<&str> = x.iter().map(|x| x.as_str()).collect();
    let path = match choice(3) {
        0 => &path[..],
        1 => &path[1..],
        _ => &path[..3],
    };
    let t = b.comp(path, vec![field(None, good, None)]);
    let ps: Vec<(&str, Option<u32>)> = (0..4).map(|i| (NAMES[i], Some(30 + i as u32))).collect();
    b.params(t, &ps);
    let mut right = path.len() == 4;
    for i in 0..path.len() {
        right &= path[i] == want[i];
    }
    let (a, _) = both(b.done(), &[], t, 4, [0; 4], &[]);
    let got = AsCompleteMetadata::<()>::extrinsic_type_params(&a);
    if right {
        cover(1);
        check!(got.is_ok(), "extrinsic not found");
    } else if got.is_err() {
        cover(2);
    }
    note(1, got.is_ok() as u64);
}
