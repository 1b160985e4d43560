//! Grammar of metadata types: one execution path per type.
use crate::mk::*;
use crate::rt::*;
use alloc::vec;
use scale_info::TypeDefPrimitive as P;

pub const LEAVES: u64 = 16;
pub const NODES: u64 = 13;

pub fn leaf(b: &mut Reg, k: u64) -> u32 {
    match k {
        0 => b.prim(P::U8),
        1 => b.prim(P::Bool),
        2 => b.prim(P::U16),
        3 => b.prim(P::U32),
        4 => b.prim(P::I8),
        5 => b.prim(P::Str),
        6 => {
            let u = b.prim(P::U8);
            b.compact(u)
        }
        7 => {
            let u = b.prim(P::U32);
            b.compact(u)
        }
        8 => b.tuple(&[]),
        9 => b.comp(&["m", "Unit"], vec![]),
        10 => b.var(&["m", "Never"], vec![]),
        11 => {
            let (s, o) = (b.prim(P::U8), b.comp(&["bitvec", "order", "Lsb0"], vec![]));
            b.bits(s, o)
        }
        12 => {
            let u = b.prim(P::U8);
            b.comp(&["sp_arithmetic", "per_things", "Percent"], vec![field(None, u, None)])
        }
        13 => b.var(&["sp_runtime", "generic", "era", "Era"], vec![]),
        14 => {
            let u = b.prim(P::U8);
            b.comp(&["m", "Bal"], vec![field(None, u, Some("Balance"))])
        }
        _ => {
            let f = vec![variant("X", 7, vec![]), variant("Y", 2, vec![])];
            b.var(&["m", "Flag"], f)
        }
    }
}
pub fn node(b: &mut Reg, k: u64, depth: u64) -> u32 {
    let c = gen(b, depth - 1);
    let u = |b: &mut Reg| b.prim(P::U8);
    match k {
        0 => b.comp(&["m", "S1"], vec![field(Some("nonce"), c, Some("Inner"))]),
        1 => {
            let x = u(b);
            b.comp(&["m", "S2"], vec![field(Some("a"), c, Some("Inner")), field(Some("b"), x, Some("Balance"))])
        }
        2 => {
            let x = u(b);
            b.comp(&["m", "S2b"], vec![field(None, x, None), field(None, c, None)])
        }
        3 => b.tuple(&[c]),
        4 => {
            let x = b.prim(P::Bool);
            b.tuple(&[c, x])
        }
        5 => {
            let x = u(b);
            b.tuple(&[x, c])
        }
        6 => {
            let x = u(b);
            let va = variant("A", 5, vec![field(None, c, None)]);
            let vb = variant("B", 0, vec![field(Some("spec_version"), x, None), field(Some("c"), c, None)]);
            b.var(&["m", "E"], vec![va, vb, variant("C", 1, vec![])])
        }
        7 => {
            assume(!zero(b, c));
            b.seq(c)
        }
        8 => b.array(c, 0),
        9 => b.array(c, 2),
        10 => b.compact(c),
        11 => b.option(c),
        _ => {
            assume(!zero(b, c));
            let x = b.seq(c);
            b.seq(x)
        }
    }
}
/// Say more about every type, on one of two paths: parameters of types, and
/// names of the types of fields.
pub fn dress(b: &mut Reg) {
    if !flag() {
        return;
    }
    for i in 0..b.t.len() as u32 {
        b.params(i, &[("T", Some(i)), ("I", None)]);
        let f = match &mut b.t[i as usize].type_def {
            scale_info::TypeDef::Composite(x) => &mut x.fields,
            scale_info::TypeDef::Variant(x) if x.variants.len() > 1 => &mut x.variants[1].fields,
            _ => continue,
        };
        for x in f {
            x.type_name.get_or_insert("T::X".into());
            x.name.get_or_insert("x".into());
        }
    }
}
/// Can a value of this type take no bytes at all? Vectors of such types are
/// outside the explored metadata: their length alone sets the work.
fn zero(b: &Reg, id: u32) -> bool {
    use scale_info::TypeDef::*;
    match &b.t[id as usize].type_def {
        Composite(x) => x.fields.iter().all(|f| zero(b, f.ty.id)),
        Tuple(x) => x.fields.iter().all(|f| zero(b, f.id)),
        Array(x) => x.len == 0 || zero(b, x.type_param.id),
        Compact(x) => zero(b, x.type_param.id),
        Variant(x) => x.variants.is_empty() && b.t[id as usize].path.segments.last().map(|s| s.as_str()) != Some("Era"),
        _ => false,
    }
}
/// A type of nesting up to `depth`.
pub fn gen(b: &mut Reg, depth: u64) -> u32 {
    let k = choice(LEAVES + if depth > 0 { NODES } else { 0 });
    if k < LEAVES {
        leaf(b, k)
    } else {
        node(b, k - LEAVES, depth)
    }
}
