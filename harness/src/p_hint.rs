//! P17, P21: labels of values, and the information attached to them.
const FILE_ID: u64 = 4;
use crate::gen;
use crate::mk::*;
use crate::p_tx::{accept, exts};
use crate::p_value::agree;
use crate::rt::*;
use crate::spec;
use alloc::{format, vec};
use scale_info::{TypeDef, TypeDefPrimitive as P};
use substrate_parser::MarkedData;

/// Field name and type name: every one that hints, near misses, both at once.
const NAMES: [(Option<&str>, Option<&str>); 18] = [
    (None, None),
    (Some("value"), Some("u8")),
    (Some("nonce"), None),
    (Some("spec_version"), None),
    (Some("spec_name"), None),
    (Some("tx_version"), None),
    (Some("transaction_version"), None),
    (None, Some("Balance")),
    (None, Some("BalanceOf<T>")),
    (None, Some("BalanceOf<T, I>")),
    (None, Some("DepositBalance")),
    (None, Some("ExtendedBalance")),
    (None, Some("PalletBalanceOf<T>")),
    (None, Some("T::Balance")),
    (Some("nonce"), Some("Balance")),
    (Some("tip"), Some("T::Balance")),
    (Some("Nonce"), Some("balance")),
    (Some("Balance"), Some("nonce")),
];
/// Fewer of them for deeper nestings.
const FEW: [usize; 6] = [0, 2, 4, 5, 8, 15];
fn names(all: bool) -> (Option<&'static str>, Option<&'static str>) {
    if all {
        NAMES[choice(18) as usize]
    } else {
        NAMES[FEW[choice(6) as usize]]
    }
}
fn wrap(b: &mut Reg, t: u32, all: bool) -> u32 {
    let u = b.prim(P::U8);
    match choice(11) {
        0 => {
            let (n, ty) = names(all);
            b.comp(&["m", "W"], vec![field(n, t, ty)])
        }
        1 => {
            let (n, ty) = names(false);
            b.comp(&["m", "W2"], vec![field(n, t, ty), field(Some("b"), u, Some("Balance"))])
        }
        2 => b.tuple(&[t]),
        3 => b.tuple(&[t, u]),
        4 => b.compact(t),
        5 => b.seq(t),
        6 => b.array(t, 2),
        7 => {
            let (n, ty) = names(all);
            b.var(&["m", "E"], vec![variant("A", 1, vec![field(n, t, ty)])])
        }
        8 => {
            let p = ["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckTxVersion"][choice(4) as usize];
            b.comp(&["m", p], vec![field(None, t, None)])
        }
        9 => {
            let p = ["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"][choice(3) as usize];
            b.comp(&["m", p], vec![field(None, t, None), field(None, u, None)])
        }
        _ => b.option(t),
    }
}
fn leaf(b: &mut Reg, k: u64) -> u32 {
    match k {
        0 => b.prim(P::U8),
        1 => b.prim(P::U128),
        2 => b.prim(P::Str),
        3 => b.bytes_struct(&["primitive_types", "H256"], 32),
        4 => b.prim(P::I8),
        5 => {
            let u = b.prim(P::U8);
            b.seq(u)
        }
        6 => b.prim(P::U16),
        7 => b.prim(P::U64),
        _ => {
            let u = b.prim(P::U32);
            b.comp(&["sp_arithmetic", "per_things", "Perbill"], vec![field(None, u, None)])
        }
    }
}
/// First byte small, so that vectors stay short.
fn data(k: u64) -> alloc::vec::Vec<u8> {
    let n = match k {
        3 => 36,
        1 => 18,
        7 => 10,
        _ => 6,
    };
    let n = if flag() { n } else { n / 2 };
    let d = bytes(n);
    assume(d[0] <= 8);
    d
}
/// P17. Parameter 0: wrappers around a value, 1: the value (all, or below),
/// 2: whether all that is the element of a set.
#[no_mangle]
pub extern "C" fn h_hint() {
    let mut b = Reg::new();
    let k = pick(1, 9);
    let mut t = leaf(&mut b, k);
    let n = param(0);
    for _ in 0..n {
        t = wrap(&mut b, t, n == 1);
    }
    if param(2) == 1 {
        t = if flag() { b.seq(t) } else { b.array(t, 1) };
    }
    let r = b.done();
    let d = data(k);
    if param(2) == 1 {
        assume((d[0] == 0 || d[0] == 4) && (d[1] & 3 == 0) && d[1] <= 8 && d[2] <= 8);
    }
    agree(&r, t, &d, 0, spec::HINTS);
}
/// P17. Hints of signed extensions. Parameter 0: wrappers.
#[no_mangle]
pub extern "C" fn h_hint_ext() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let u = b.prim(P::U8);
    let hash = b.bytes_struct(&["primitive_types", "H256"], 32);
    let deep = param(0) > 0;
    let k = [0, 3, 2, 1, 5][choice(if deep { 2 } else { 5 }) as usize];
    let mut t = leaf(&mut b, k);
    for _ in 0..param(0) {
        t = wrap(&mut b, t, false);
    }
    let ids = [
        "CheckMortality", "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckTxVersion", "CheckEra", "checkNonce",
        "CheckGenesis", "CheckSpecVersion",
    ];
    // printing a symbolic 128-bit version is out of reach
    let id = ids[choice(if deep { 4 } else if k == 1 { 8 } else { 9 }) as usize];
    let x = if flag() { ext(id, t, unit) } else { ext(id, unit, t) };
    let es = vec![x, ext("CheckSpecVersion", unit, u), ext("CheckGenesis", unit, hash)];
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.exts = es.clone();
    m.version = "7".into();
    // an empty call, the value, and the mandatory extensions
    let mut d = vec![0u8];
    d.extend_from_slice(&bytes(match k {
        3 => 32,
        1 => 16,
        5 => 1,
        _ => 1 + choice(2) as usize,
    }));
    assume(d[1] <= 4);
    d.push(7);
    d.extend_from_slice(&arr::<32>());
    let s: &[u8] = &d;
    let mk = match MarkedData::<&[u8], (), Meta>::mark(&s, &mut ()) {
        Ok(x) => x,
        Err(_) => {
            check!(false, "empty call");
            return;
        }
    };
    let got = substrate_parser::decode_extensions::<&[u8], (), Meta>(&mk, &mut (), &m, None);
    let mut q = 1;
    let want = exts(&r, &es, &d, &mut q).ok().filter(|e| q == d.len() && accept(e, b"7", None));
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            cover(1);
            check!(w.len() == g.len(), "number of extensions");
            for i in 0..w.len() {
                check!(spec::same_ext(&r, &w[i], &g[i], spec::HINTS), "labels of an extension");
            }
        }
        (None, Err(_)) => cover(2),
        _ => check!(false, "extensions accepted or rejected wrongly"),
    }
}

/// Docs and paths on every type, field and variant of the registry; which of
/// them have some is one of six patterns, in the last two all have the same.
pub fn document(b: &mut Reg) {
    let mode = choice(6);
    let docs = |i: usize, what: &str| match (mode, i % 3) {
        (4 | 5, _) => vec!["same".into()],
        (0, _) => vec![format!("{what} {i}")],
        (1, 0) => vec![format!(" {what} {i}"), "".into(), "more ".into(), "".into()],
        (1, 1) => vec!["".into()],
        (2, 1) => vec!["".into(), format!("{what} {i}\n"), format!("and {i}"), " ".into()],
        _ => vec![],
    };
    for (i, t) in b.t.iter_mut().enumerate() {
        t.docs = docs(i, "type");
        match &mut t.type_def {
            TypeDef::Composite(x) => {
                for (k, f) in x.fields.iter_mut().enumerate() {
                    f.docs = docs(i + k, "field");
                }
            }
            TypeDef::Variant(x) => {
                for (j, v) in x.variants.iter_mut().enumerate() {
                    v.docs = docs(i + j, "variant");
                    for (k, f) in v.fields.iter_mut().enumerate() {
                        f.docs = docs(i + j + k, "field");
                    }
                }
            }
            TypeDef::Primitive(_) | TypeDef::Tuple(_) | TypeDef::Array(_) | TypeDef::Sequence(_) | TypeDef::Compact(_) => {
                // paths where there usually are none
                if mode == 3 {
                    t.path.segments = strs(&["p", ["a", "b", "c"][i % 3]]);
                } else if mode == 5 {
                    t.path.segments = strs(&["p"]);
                }
            }
            _ => (),
        }
    }
}
/// P21. Parameter 0: constructor, 1: depth below it, 2: longest data.
#[no_mangle]
pub extern "C" fn h_info() {
    let mut b = Reg::new();
    let k = pick(0, gen::NODES);
    let t = gen::node(&mut b, k, param(1) + 1);
    document(&mut b);
    let r = b.done();
    let d = blob(param(2) as usize);
    agree(&r, t, &d, 0, spec::INFO);
}
/// P21. Any lines of docs and any parts of paths of one type, field or
/// variant. Parameter 0: constructor, 1: longest line, 2: longest data.
#[no_mangle]
pub extern "C" fn h_name_info() {
    let mut b = Reg::new();
    let k = pick(0, gen::NODES);
    let t = gen::node(&mut b, k, 1);
    let n = param(1) as usize;
    let lines = match choice(5) {
        0 => vec![name(0, n)],
        4 => vec![text(5), text(7)],
        1 => vec![name(0, n), name(0, n)],
        2 => vec!["a".into(), name(0, n), "b".into()],
        _ => vec!["\u{e9}\u{1F600}".into(), name(0, 1)],
    };
    let x = &mut b.t[t as usize];
    match choice(4) {
        0 => x.docs = lines,
        1 => x.path.segments.insert(0, name(1, n)),
        2 => {
            x.docs = lines;
            x.path.segments = vec![name(1, n), "\u{e9}".into(), "m".into(), "Deep".into()];
        }
        _ => match &mut x.type_def {
            TypeDef::Composite(x) => {
                if let Some(f) = x.fields.last_mut() {
                    f.docs = lines;
                }
            }
            TypeDef::Variant(x) => {
                if let Some(v) = x.variants.first_mut() {
                    if flag() {
                        v.docs = lines;
                    } else if let Some(f) = v.fields.first_mut() {
                        f.docs = lines;
                    }
                }
            }
            _ => (),
        },
    }
    let r = b.done();
    let d = blob(param(2) as usize);
    agree(&r, t, &d, 0, spec::INFO);
}
/// P21. Values with a dedicated representation, calls and events.
#[no_mangle]
pub extern "C" fn h_info_special() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let c = b.compact(u);
    let (t, n) = match choice(8) {
        0 => (b.bytes_struct(&["primitive_types", "H256"], 32), 32),
        1 => (b.bytes_struct(&["sp_core", "crypto", "AccountId32"], 32), 32),
        2 => (b.bytes_struct(&["primitive_types", "H160"], 20), 20),
        3 => {
            let sig = b.bytes_struct(&["sp_core", "sr25519", "Signature"], 64);
            (b.var(&["sp_runtime", "MultiSignature"], vec![variant("Sr25519", 1, vec![field(None, sig, Some("sr25519::Signature"))])]), 65)
        }
        k @ (4 | 5) => {
            let name = ["Call", "Event"][k as usize - 4];
            let inner = b.var(&["pallet_x", "pallet", name], vec![
                variant("poke", 0, vec![]),
                variant("set", 1, vec![field(Some("value"), u, Some("u8")), field(Some("other"), c, Some("Balance"))]),
            ]);
            let outer = ["RuntimeCall", "RuntimeEvent"][k as usize - 4];
            (b.var(&["chain", outer], vec![variant("X", 0, vec![field(None, inner, None)]), variant("Y", 1, vec![])]), 4)
        }
        6 => (b.bytes_struct(&["sp_core", "ecdsa", "Public"], 33), 33),
        _ => (b.comp(&["sp_arithmetic", "per_things", "Percent"], vec![field(None, u, None)]), 1),
    };
    let t = match choice(3) {
        0 => t,
        1 => b.comp(&["m", "W"], vec![field(Some("w"), t, None)]),
        _ => b.array(t, 1),
    };
    document(&mut b);
    let r = b.done();
    agree(&r, t, &bytes(n), 0, spec::INFO);
}
