//! Models of library functions, selected by symbol name.
//!
//! One step is modelled: how `core` finds the decimal digits of an integer,
//! for integers that a harness made out of symbolic digits (`rt::number`) and
//! for given ones over 64 bits. Padding and writing them out is the code of
//! `core`, and so is printing every other integer.
use crate::exec::*;
use crate::ir::*;
use std::rc::Rc;

pub enum Out { Val(Val), Framed }

/// Which of the functions: 1 returns the printed string, 2 the offset of its start.
pub fn kind(name: &str) -> u8 {
    let int = name.contains("4core3fmt3num3imp") || name.contains("4core3fmt3numo");
    if int && name.ends_with("5__fmt") | name.ends_with("4__fmt") { 1 } else if int && name.ends_with("10__fmt_inner") { 2 } else { 0 }
}
/// `Display` of an unsigned integer with the digit loop inlined: its width.
fn whole(x: &Exec, name: &str) -> Option<u16> {
    let n = name.strip_suffix("7Display3fmt")?;
    let n = &n[n.find("4core3fmt3num3imp")? + 17..];
    Some(match n.as_bytes().first()? { b'h' => 8, b't' => 16, b'm' => 32, b'y' => 64, b'j' => x.m.ptr_bits(), b'o' => 128, _ => return None })
}
pub fn stub(x: &mut Exec, s: &mut State, id: u32, args: &[Val], dst: u32, c: &CallI) -> Result<Option<Out>, Stop> {
    if args.len() == 2 {
        let name = &*x.m.defs[id as usize].name;
        let Some(w) = whole(x, name) else { return Ok(None) };
        let d = match x.api_load(s, &args[0], &Ty::Int(w))? {
            Val::S(v) => match x.digits.get(&v) { Some(d) => d.clone(), None => return Ok(None) },
            _ => return Ok(None),
        };
        let Some(pad) = x.m.by_name.iter().find(|(n, _)| n.ends_with("9Formatter12pad_integral")).map(|(_, i)| *i) else { return Ok(None) };
        let to = x.api_alloc(s, d.len() as u64)?;
        for (i, b) in d.iter().enumerate() { x.api_store(s, &Val::C(to as u128 + i as u128), &Ty::Int(8), b)?; }
        x.api_push(s, pad, vec![args[1].clone(), Val::C(1), Val::C(1), Val::C(0), Val::C(to as u128), Val::C(d.len() as u128)], dst, c.normal)?;
        return Ok(Some(Out::Framed));
    }
    if args.len() != 3 { return Ok(None); }
    let k = kind(&x.m.defs[id as usize].name);
    if k == 0 { return Ok(None); }
    let (Val::C(p), Val::C(n)) = (&args[1], &args[2]) else { return Ok(None) };
    let d = match &args[0] {
        Val::S(v) => match x.digits.get(v) { Some(d) => d.clone(), None => return Ok(None) },
        Val::C(v) if *v >> 64 != 0 => Rc::new(v.to_string().bytes().map(|b| Val::C(b as u128)).collect::<Vec<_>>()),
        _ => return Ok(None),
    };
    if d.len() as u128 > *n { return Ok(None); }
    let from = *n - d.len() as u128;
    for (i, b) in d.iter().enumerate() { x.store(s, &Val::C(p + from + i as u128), &Ty::Int(8), b)?; }
    Ok(Some(Out::Val(if k == 2 { Val::C(from) } else { Val::A(Rc::new(vec![Val::C(p + from), Val::C(d.len() as u128)])) })))
}
