//! P04, P07, P08, P10, P14, P17, P19: names that matter, among all names.
//! The names are symbolic texts; the length of a text is one of a range.
const FILE_ID: u64 = 9;
use crate::mk::*;
use crate::p_tx::{accept, exts};
use crate::p_value::agree;
use crate::rt::*;
use crate::spec;
use alloc::{string::String, vec, vec::Vec};
use primitive_types::H256;
use scale_info::TypeDefPrimitive as P;

/// P07. Any name at the end of a path, on types of several shapes.
/// Parameter 0: the shape, 1: longest name.
#[no_mangle]
pub extern "C" fn h_name_special() {
    let mut b = Reg::new();
    let s = name(0, param(1) as usize);
    let u = b.prim(P::U8);
    let seg: &[&str] = &["sp_core", "ed25519", &s];
    let path = &seg[choice(3) as usize..];
    let (t, n) = match pick(0, 8) {
        0 => (b.bytes_struct(path, 20), 20),
        1 => (b.bytes_struct(path, 32), 32),
        2 => (b.bytes_struct(path, 64), 64),
        3 => (b.comp(path, vec![field(None, u, None)]), 1),
        4 => {
            let v = b.prim(P::U32);
            (b.comp(path, vec![field(None, v, None)]), 4)
        }
        5 => (b.tuple(&[u, u]), 2),
        6 => {
            let t = b.var(path, vec![variant("A", 0, vec![]), variant("B", 4, vec![field(Some("x"), u, None)])]);
            (t, 2)
        }
        _ => (b.bytes_struct(path, 65), 65),
    };
    b.path(t, path);
    let r = b.done();
    let d = bytes(if flag() { n } else { n - 1 });
    agree(&r, t, &d, 0, spec::VALUES);
}
/// P07. Public keys and signatures: any two names before the last one, and
/// any name before these. Parameter 0: which key.
#[no_mangle]
pub extern "C" fn h_name_crypto() {
    let mut b = Reg::new();
    let last = ["Public", "Signature"][pick(0, 2) as usize];
    let (x, y) = (name(6, 8), name(5, 7));
    let (t, n) = {
        let seg: &[&str] = &["x", &x, &y, last];
        let two: &[&str] = &[&x, &y, "x", last];
        let path = match choice(5) {
            0 => &seg[0..],
            1 => &seg[1..],
            2 => &seg[2..],
            3 => two,
            _ => &[x.as_str(), &y],
        };
        let n = [3, 33, 65][choice(3) as usize];
        (b.bytes_struct(path, n), n as usize)
    };
    let r = b.done();
    agree(&r, t, &bytes(n), 0, spec::VALUES);
}
/// P07. Keys and signatures with one name more, any, anywhere in the path.
/// Parameter 0: which key, 1: longest name.
#[no_mangle]
pub extern "C" fn h_name_longer() {
    let mut b = Reg::new();
    let last = ["Public", "Signature"][pick(0, 2) as usize];
    let scheme = ["ed25519", "sr25519", "ecdsa"][choice(3) as usize];
    let z = name(0, param(1) as usize);
    let mut path = vec!["sp_core", scheme, last];
    path.insert(choice(4) as usize, &z);
    let n = [3, 32, 33, 64, 65][choice(5) as usize];
    let t = b.bytes_struct(&path, n);
    let r = b.done();
    agree(&r, t, &bytes(n as usize), 0, spec::VALUES);
}
/// P07. Any type name in a variant of any name. Parameter 0: longest type
/// name, shortest of 14.
#[no_mangle]
pub extern "C" fn h_name_multisig() {
    let mut b = Reg::new();
    let ident = if flag() { name(13, 15) } else { "MultiSignature".into() };
    let len = [64, 65][choice(2) as usize];
    let u = b.prim(P::U8);
    let a = b.array(u, len);
    let ty = if flag() { Some(name(14, param(0) as usize)) } else { Some(String::from("ed25519::Signature")) };
    let w = match choice(3) {
        0 => b.comp(&["sp_core", "x", "Signature"], vec![field(None, a, None)]),
        1 => b.comp(&["sp_core", &name(9, 9)], vec![field(None, a, None)]),
        _ => a,
    };
    let t = b.var(&["sp_runtime", &ident], vec![variant("A", 1, vec![field(None, w, ty.as_deref())])]);
    let r = b.done();
    agree(&r, t, &bytes(len as usize + 1), 0, spec::VALUES);
}
/// P04. Any name of the order. Parameter 0: longest name.
#[no_mangle]
pub extern "C" fn h_name_order() {
    let mut b = Reg::new();
    let s = name(0, param(0) as usize);
    let u = b.prim([P::U8, P::U16][choice(2) as usize].clone());
    let path: &[&str] = &["bitvec", "Lsb0", &s];
    let path = &path[choice(3) as usize..];
    let o = if flag() { b.comp(path, vec![]) } else { b.var(path, vec![]) };
    let t = b.bits(u, o);
    let r = b.done();
    agree(&r, t, &blob(3), 0, spec::VALUES);
}
/// P08. Any names of the outer and the inner enum. Parameter 0, 1: longest
/// name of the outer and of the inner one, or 100 and more for a call or event.
#[no_mangle]
pub extern "C" fn h_name_pallet() {
    let mut b = Reg::new();
    let any = |n: u64| if n < 100 { name(0, n as usize) } else { String::from(["Call", "RuntimeCall", "Event", "RuntimeEvent"][n as usize - 100]) };
    let (outer, inner) = (any(param(0)), any(param(1)));
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let f = vec![field(Some("value"), h, Some("BalanceOf<T>")), field(None, u, None)];
    let vs = vec![variant("transfer", 3, f), variant("poke", 0, vec![])];
    let i = b.var(&["pallet", &inner], vs);
    // no name of the pallet or the call matters
    let p = name(3, 4);
    let t = b.var(&["chain", &outer], vec![variant(&p, 5, vec![field(None, i, None)]), variant("Other", 0, vec![])]);
    let t = if flag() { b.comp(&["m", "W"], vec![field(Some("call"), t, None)]) } else { t };
    let r = b.done();
    agree(&r, t, &blob(5), 0, spec::VALUES);
}
/// P17. Any name and type name of a field. Parameter 0, 1: longest name and
/// type name, 2: kind of the value, 3: what the field is a part of.
#[no_mangle]
pub extern "C" fn h_name_hint() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let (t, n) = match pick(2, 5) {
        0 => (u, 1),
        1 => (b.prim(P::Str), 2),
        2 => (b.bytes_struct(&["primitive_types", "H256"], 32), 32),
        3 => {
            let v = b.prim(P::U32);
            (b.compact(v), 4)
        }
        _ => (b.tuple(&[u, u]), 2),
    };
    let opt = |n: u64| if n > 0 && flag() { Some(name(0, n as usize)) } else { None };
    let (fname, ty) = (opt(param(0)), opt(param(1)));
    let f = field(fname.as_deref(), t, ty.as_deref());
    let (t, n) = match pick(3, 4) {
        0 => (b.comp(&["m", "W"], vec![f]), n),
        1 => (b.comp(&["m", "W"], vec![field(Some("a"), u, None), f]), n + 1),
        2 => (b.var(&["m", "E"], vec![variant("A", 0, vec![f])]), n + 1),
        _ => {
            let x = b.comp(&["m", "W"], vec![f]);
            (b.comp(&["m", "W"], vec![field(Some("nonce"), x, Some("Balance"))]), n)
        }
    };
    let r = b.done();
    agree(&r, t, &bytes(n), 0, spec::HINTS);
}
/// P17. Any name of a path. Parameter 0: longest name.
#[no_mangle]
pub extern "C" fn h_name_path() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let s = name(0, param(0) as usize);
    let seg: &[&str] = &["m", &s];
    let back: &[&str] = &[&s, "m"];
    let path = [seg, &seg[1..], back][choice(3) as usize];
    let f = field(if flag() { Some("x") } else { None }, u, None);
    let (t, n) = match choice(4) {
        0 => (b.comp(path, vec![f]), 1),
        1 => (b.comp(path, vec![f, field(Some("y"), u, Some("Balance"))]), 2),
        2 => (b.var(path, vec![variant("A", 0, vec![f])]), 2),
        _ => {
            let t = b.tuple(&[u]);
            (b.path(t, path), 1)
        }
    };
    let r = b.done();
    agree(&r, t, &bytes(n), 0, spec::HINTS);
}
/// P10, P17. Any identifier of an extension, next to the mandatory ones.
/// Parameter 0, 1: shortest and longest identifier.
#[no_mangle]
pub extern "C" fn h_name_ext() {
    let mut b = Reg::new();
    let unit = b.tuple(&[]);
    let (u, v) = (b.prim(P::U8), b.prim(P::U128));
    let hash = b.bytes_struct(&["primitive_types", "H256"], 32);
    let s = name(param(0) as usize, param(1) as usize);
    let (t, n) = [(u, 1), (v, 16), (hash, 32)][choice(3) as usize];
    if n == 16 {
        // printing any version of 128 bits is out of reach
        assume(s != "CheckSpecVersion");
    }
    let x = if flag() { ext(&s, t, unit) } else { ext(&s, unit, t) };
    let mut es = vec![x];
    let mut n = n;
    if flag() {
        es.push(ext("CheckSpecVersion", unit, u));
        n += 1;
    }
    if flag() {
        es.insert(0, ext("CheckGenesis", unit, hash));
        n += 32;
    }
    let r = b.done();
    let mut m = Meta::new(r.clone());
    m.exts = es.clone();
    m.version = "7".into();
    let d = bytes(n);
    let mut q = 0;
    let want = exts(&r, &es, &d, &mut q).ok().filter(|e| q == d.len() && accept(e, b"7", None));
    let mut pos = 0;
    let x: &[u8] = &d;
    let got = substrate_parser::decode_extensions_unmarked::<&[u8], (), Meta>(&x, &mut pos, &mut (), &m, None::<H256>);
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            cover(1);
            check!(w.len() == g.len(), "number of extensions");
            for i in 0..w.len() {
                check!(spec::same_ext(&r, &w[i], &g[i], spec::HINTS), "labels of an extension");
            }
        }
        (None, Err(_)) => cover(2),
        (None, Ok(_)) => check!(false, "extensions that must be refused are accepted"),
        (Some(_), Err(_)) => check!(false, "good extensions refused"),
    }
}
/// P03. Names that say nothing: of fields, variants, types and paths, all of
/// them any texts of one length each. Parameter 0: that length.
#[no_mangle]
pub extern "C" fn h_name_none() {
    let mut b = Reg::new();
    let n = param(0) as usize;
    let t = || -> Vec<String> { (0..6).map(|_| text(n)).collect() };
    let s = t();
    let (u, h) = (b.prim(P::U8), b.prim(P::U16));
    let c = b.comp(&[&s[0]], vec![field(Some(&s[1]), u, Some(&s[2])), field(Some(&s[3]), h, Some(&s[4]))]);
    let e = b.var(&[&s[5]], vec![variant(&s[1], 1, vec![field(Some(&s[0]), c, Some(&s[3]))]), variant(&s[2], 0, vec![])]);
    let t = b.seq(e);
    let r = b.done();
    agree(&r, t, &bytes(5), 0, spec::VALUES);
}
/// P03, P07. Parameters of types and docs mean nothing to the parser.
/// Parameters 0: types from constructors (depth 1), types by path, bits or
/// calls, 1: data at most.
#[no_mangle]
pub extern "C" fn h_deco() {
    let mut b = Reg::new();
    let (t, d) = if param(0) == 3 {
        (crate::gen::gen(&mut b, 1), blob(param(1) as usize))
    } else {
        let (t, k) = crate::p_value::more(&mut b, param(0));
        (t, if k <= 9 { blob(k) } else { bytes(k + choice(3) as usize - 1) })
    };
    b.deco();
    agree(&b.done(), t, &d, 0, spec::VALUES);
}
/// Up to `most` names, all of them any of three characters, but for one that
/// is as long as one path wants, up to `longest`.
fn space(most: u64, longest: usize) -> Vec<String> {
    let k = choice(most + 1) as usize;
    let mut v: Vec<String> = (0..k).map(|_| text(3)).collect();
    if k > 0 && longest > 3 {
        v[choice(k as u64) as usize] = name(0, longest);
    }
    v
}
fn under<'a>(space: &'a [String], last: &'a str) -> Vec<&'a str> {
    space.iter().map(|s| s.as_str()).chain([last]).collect()
}
/// P07, P17. Names before the one that a type is recognized by: as many as
/// can be, any. Parameter 0: which type, 1: most names, 2: longest name.
#[no_mangle]
pub extern "C" fn h_space_special() {
    let mut b = Reg::new();
    let s = space(param(1), param(2) as usize);
    let u = b.prim(P::U8);
    let (t, n) = match pick(0, 13) {
        0 => {
            let inner = b.array(u, 64);
            let v = variant("A", 1, vec![field(if flag() { Some("x") } else { None }, inner, Some("sr25519::Signature"))]);
            (b.var(&under(&s, "MultiSignature"), vec![v]), 65)
        }
        1 => (b.var(&under(&s, "Era"), vec![variant("Immortal", 0, vec![]), variant("Mortal1", 1, vec![field(None, u, None)])]), 2),
        k @ 2..=6 => {
            let (name, n) = [("AccountId32", 32), ("H256", 32), ("H160", 20), ("AccountId20", 20), ("H512", 64)][k as usize - 2];
            (b.bytes_struct(&under(&s, name), n), n as usize)
        }
        k @ 7..=11 => {
            let (name, p, n) = [("Percent", P::U8, 1), ("PerU16", P::U16, 2), ("Permill", P::U32, 4), ("Perbill", P::U32, 4), ("Perquintill", P::U64, 8)][k as usize - 7].clone();
            let p = b.prim(p);
            (b.comp(&under(&s, name), vec![field(None, p, None)]), n)
        }
        // what a hint stands on
        _ => {
            let last = ["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckGenesis"][choice(4) as usize];
            let x = b.comp(&under(&s, last), vec![field(None, u, None)]);
            if flag() {
                (b.tuple(&[x]), 1)
            } else {
                (b.tuple(&[u, x]), 2)
            }
        }
    };
    let t = match choice(3) {
        0 => t,
        1 => b.array(t, 1),
        _ => b.comp(&["m", "W"], vec![field(Some("w"), t, None)]),
    };
    let r = b.done();
    let d = bytes(if flag() { n } else { n - 1 });
    agree(&r, t, &d, 0, spec::HINTS);
}
/// P08. Names before the last ones of both enums of a call or event.
/// Parameter 0: most names, 1: longest name.
#[no_mangle]
pub extern "C" fn h_space_pallet() {
    let mut b = Reg::new();
    let u = b.prim(P::U8);
    let last = ["Call", "RuntimeCall", "Event", "RuntimeEvent"];
    let (x, y) = (choice(4) as usize, choice(4) as usize);
    let long = flag();
    let s = space(param(0), if long { param(1) as usize } else { 3 });
    let z = space(if long { 1 } else { param(0) }, 3);
    let (s, z) = if flag() { (z, s) } else { (s, z) };
    let i = b.var(&under(&z, last[y]), vec![variant("go", 3, vec![field(None, u, None)]), variant("stop", 0, vec![])]);
    let f = field(if flag() { Some("x") } else { None }, i, None);
    let t = b.var(&under(&s, last[x]), vec![variant("P", 5, vec![f]), variant("Other", 0, vec![])]);
    let r = b.done();
    agree(&r, t, &blob(3), 0, spec::VALUES);
}
/// P04. Names before the one of the order. Parameter 0: most names, 1: longest.
#[no_mangle]
pub extern "C" fn h_space_order() {
    let mut b = Reg::new();
    let u = b.prim([P::U8, P::U32][choice(2) as usize].clone());
    let s = space(param(0), param(1) as usize);
    let path = under(&s, ["Lsb0", "Msb0"][choice(2) as usize]);
    let o = if flag() { b.comp(&path, vec![]) } else { b.var(&path, vec![]) };
    let t = b.bits(u, o);
    let r = b.done();
    agree(&r, t, &blob(5), 0, spec::VALUES);
}
