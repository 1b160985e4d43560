//! Lazy parser for textual LLVM IR.
use crate::expr::FxMap;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, Float(u16), Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(bool, Rc<Vec<Ty>>), Other }

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(u32), A(Rc<Vec<Val>>) }
impl Val { pub const ZERO: Val = Val::C(0); }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Zext, Sext, Trunc, Bitcast, Same }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Named(Rc<str>), Ind(Opd) }

#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<Opd>, pub ret: Ty, pub argtys: Vec<Ty>, pub normal: Option<u32> }

#[derive(Debug)]
pub enum I {
    Bin(BinOp, u16, u32, Opd, Opd),          // op, elem width, vector lanes (0 scalar)
    Icmp(Pred, u16, u32, Opd, Opd),
    Cast(CastOp, Ty, Ty, Opd),
    Select(Opd, Opd, Opd, Ty, bool),         // cond, a, b, ty, cond is vector
    Gep(Opd, u64, Vec<(Opd, u16, u64)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),                     // value, ptr
    Alloca(u64),
    Call(Box<CallI>),
    Extract(Opd, Vec<u32>),
    Insert(Opd, Opd, Vec<u32>),
    ExtElem(Opd, Opd),
    InsElem(Opd, Opd, Opd, u64),
    Shuffle(Opd, Opd, Vec<u32>, u64),
    AtomicRmw(u8, u16, Opd, Opd),
    CmpXchg(u16, Opd, Opd, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Ins { pub dst: u32, pub i: I } // dst == u32::MAX: none
pub const NODST: u32 = u32::MAX;

#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub ins: Vec<Ins> }

#[derive(Debug)]
pub struct Func { pub id: u32, pub name: Rc<str>, pub nparams: u32, pub nregs: u32, pub blocks: Vec<Block> }

pub struct GDef { pub name: Rc<str>, pub text: (usize, usize), pub is_fn: bool, pub defined: bool, pub noreturn: bool }

pub struct Module {
    pub src: &'static str,
    pub defs: Vec<GDef>,
    pub by_name: FxMap<String, u32>,
    pub types: RefCell<FxMap<String, Ty>>,
    type_src: FxMap<String, String>,
    pub ptr_bytes: u64,
    pub obj_shift: u32,
    funcs: RefCell<Vec<Option<Rc<Func>>>>,
}

pub fn size_align(m: &Module, t: &Ty) -> (u64, u64) {
    match t {
        Ty::Void | Ty::Other => (0, 1),
        Ty::Int(w) => {
            let b = ((*w as u64) + 7) / 8;
            let p = b.next_power_of_two().min(16);
            ((b + p - 1) / p * p, p)
        }
        Ty::Ptr => (m.ptr_bytes, m.ptr_bytes),
        Ty::Float(w) => (*w as u64 / 8, (*w as u64 / 8).min(16)),
        Ty::Arr(n, t) => { let (s, a) = size_align(m, t); (s * n, a) }
        Ty::Vec(n, t) => {
            let bits = match **t { Ty::Int(w) => w as u64 * n, _ => size_align(m, t).0 * 8 * n };
            let b = (bits + 7) / 8;
            let p = b.next_power_of_two();
            (p, p)
        }
        Ty::Struct(packed, f) => {
            let mut o = 0; let mut al = 1;
            for t in f.iter() {
                let (s, a) = size_align(m, t);
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a + s;
                al = al.max(a);
            }
            ((o + al - 1) / al * al, al)
        }
    }
}
pub fn store_size(m: &Module, t: &Ty) -> u64 {
    match t { Ty::Int(w) => ((*w as u64) + 7) / 8, _ => size_align(m, t).0 }
}
pub fn field_off(m: &Module, t: &Ty, i: u64) -> (u64, Ty) {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => (size_align(m, e).0 * i, (**e).clone()),
        Ty::Struct(packed, f) => {
            let mut o = 0;
            for (k, t) in f.iter().enumerate() {
                let (s, a) = size_align(m, t);
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a;
                if k as u64 == i { return (o, t.clone()); }
                o += s;
            }
            panic!("field_off")
        }
        _ => panic!("field_off on {:?}", t),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok<'a> { Word(&'a str), Loc(&'a str), Glob(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), Meta, Hash, P(char), Eof }

pub struct Lex<'a> { s: &'a str, i: usize, pub t: Tok<'a> }
fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self { let mut l = Lex { s, i: 0, t: Tok::Eof }; l.next(); l }
    pub fn next(&mut self) -> Tok<'a> {
        let old = self.t;
        let b = self.s.as_bytes();
        while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t') { self.i += 1; }
        if self.i >= b.len() { self.t = Tok::Eof; return old; }
        let st = self.i;
        let c = b[st];
        self.t = match c {
            b'%' | b'@' => {
                let name;
                if b.get(st + 1) == Some(&b'"') {
                    let e = self.s[st + 2..].find('"').unwrap() + st + 2;
                    name = &self.s[st + 2..e];
                    self.i = e + 1;
                } else {
                    let mut j = st + 1;
                    while j < b.len() && isid(b[j]) { j += 1; }
                    name = &self.s[st + 1..j];
                    self.i = j;
                }
                if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) }
            }
            b'!' => {
                let mut j = st + 1;
                if b.get(j) == Some(&b'"') { let e = self.s[j + 1..].find('"').unwrap() + j + 1; j = e + 1; }
                else { while j < b.len() && isid(b[j]) { j += 1; } }
                self.i = j;
                Tok::Meta
            }
            b'#' => { let mut j = st + 1; while j < b.len() && b[j].is_ascii_digit() { j += 1; } self.i = j; Tok::Hash }
            b'"' => { let e = self.s[st + 1..].find('"').unwrap() + st + 1; self.i = e + 1; Tok::Str(&self.s[st + 1..e]) }
            b'c' if b.get(st + 1) == Some(&b'"') => {
                let e = self.s[st + 2..].find('"').unwrap() + st + 2;
                self.i = e + 1;
                Tok::CStr(&self.s[st + 2..e])
            }
            b'0'..=b'9' | b'-' => {
                let mut j = st + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || b[j] == b'-') { j += 1; }
                self.i = j;
                Tok::Num(&self.s[st..j])
            }
            b'.' => { let mut j = st; while j < b.len() && b[j] == b'.' { j += 1; } self.i = j; Tok::Word(&self.s[st..j]) }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = st;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') { j += 1; }
                self.i = j;
                Tok::Word(&self.s[st..j])
            }
            _ => { self.i = st + 1; Tok::P(c as char) }
        };
        old
    }
    pub fn eat(&mut self, c: char) -> bool { if self.t == Tok::P(c) { self.next(); true } else { false } }
    pub fn expect(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' got {:?} in `{}`", c, self.t, &self.s[..self.s.len().min(300)])) }
    }
    pub fn eatw(&mut self, w: &str) -> bool { if self.t == Tok::Word(w) { self.next(); true } else { false } }
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.next() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } Tok::Eof => return, _ => {} }
        }
    }
}

fn is_int_ty(w: &str) -> Option<u16> {
    let b = w.as_bytes();
    if b.len() >= 2 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit()) { w[1..].parse().ok() } else { None }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'\\') { o.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut defs: Vec<GDef> = vec![];
        let mut by_name: FxMap<String, u32> = Default::default();
        let mut type_src: FxMap<String, String> = Default::default();
        let mut noret_groups: FxMap<String, bool> = Default::default();
        let mut groups: Vec<(u32, String)> = vec![];
        let mut ptr_bytes = 8;
        let mut pos = 0usize;
        let mut fn_start: Option<(usize, String, String)> = None;
        let nm = |l: &str, c: char| -> Option<(String, usize)> {
            let i = l.find(c)?;
            let r = &l[i + 1..];
            if r.starts_with('"') { let e = r[1..].find('"')?; Some((r[1..1 + e].to_string(), i + 1 + e + 2)) }
            else { let e = r.bytes().position(|c| !isid(c)).unwrap_or(r.len()); Some((r[..e].to_string(), i + 1 + e)) }
        };
        for line in src.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            let l = line.trim_end();
            if let Some((fs, name, attr)) = &fn_start {
                if l == "}" {
                    let id = defs.len() as u32;
                    by_name.insert(name.clone(), id);
                    groups.push((id, attr.clone()));
                    defs.push(GDef { name: name.as_str().into(), text: (*fs, pos), is_fn: true, defined: true, noreturn: false });
                    fn_start = None;
                }
                continue;
            }
            if l.starts_with("define ") || l.starts_with("declare ") {
                let (name, e) = nm(l, '@').unwrap();
                let tail = &l[e..];
                let mut attr = String::new();
                // attribute group is the last #N before the body
                for w in tail.split_whitespace() { if w.starts_with('#') { attr = w.to_string(); } }
                if tail.contains(") noreturn") || tail.contains(" noreturn ") { attr.push_str("!NR"); }
                if l.starts_with("define ") { fn_start = Some((st, name, attr)); }
                else {
                    let id = defs.len() as u32;
                    by_name.insert(name.clone(), id);
                    groups.push((id, attr));
                    defs.push(GDef { name: intrinsic(&name).into(), text: (st, pos), is_fn: true, defined: false, noreturn: false });
                }
            } else if l.starts_with('@') {
                let (name, _) = nm(l, '@').unwrap();
                let id = defs.len() as u32;
                by_name.insert(name.clone(), id);
                defs.push(GDef { name: name.as_str().into(), text: (st, pos), is_fn: false, defined: true, noreturn: false });
            } else if l.starts_with('%') {
                if let Some((name, _)) = nm(l, '%') {
                    if let Some(k) = l.find(" = type ") { type_src.insert(name, l[k + 8..].to_string()); }
                }
            } else if l.starts_with("attributes #") {
                let g = l["attributes ".len()..].split(' ').next().unwrap().to_string();
                noret_groups.insert(g, l.contains(" noreturn "));
            } else if l.starts_with("target datalayout") {
                if l.contains("p:32:32") { ptr_bytes = 4; }
            }
        }
        for (id, a) in groups {
            let (g, nr) = match a.strip_suffix("!NR") { Some(g) => (g.to_string(), true), None => (a.clone(), false) };
            defs[id as usize].noreturn = nr || *noret_groups.get(&g).unwrap_or(&false);
        }
        let n = defs.len();
        Module {
            src, defs, by_name, types: Default::default(), type_src, ptr_bytes,
            obj_shift: if ptr_bytes == 8 { 32 } else { 16 },
            funcs: RefCell::new((0..n).map(|_| None).collect()),
        }
    }
    pub fn addr_of(&self, id: u32) -> u64 { ((id as u64) + 1) << self.obj_shift }
    pub fn ptr_bits(&self) -> u16 { (self.ptr_bytes * 8) as u16 }

    pub fn is_type_start(&self, t: &Tok) -> bool {
        match t {
            Tok::Word(w) => is_int_ty(w).is_some() || matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token"),
            Tok::P('[') | Tok::P('{') | Tok::P('<') | Tok::Loc(_) => true,
            _ => false,
        }
    }
    pub fn ty(&self, l: &mut Lex) -> Result<Ty, String> {
        match l.next() {
            Tok::Word(w) => {
                if let Some(n) = is_int_ty(w) { return Ok(Ty::Int(n)); }
                Ok(match w {
                    "ptr" => { if l.eatw("addrspace") { l.skip_paren(); } Ty::Ptr }
                    "void" => Ty::Void,
                    "half" | "bfloat" => Ty::Float(16),
                    "float" => Ty::Float(32), "double" => Ty::Float(64), "fp128" | "x86_fp80" => Ty::Float(128),
                    "label" | "metadata" | "token" => Ty::Other,
                    _ => return Err(format!("type {}", w)),
                })
            }
            Tok::P('[') => {
                let n = self.num(l)?;
                if !l.eatw("x") { return Err("array type".into()); }
                let t = self.ty(l)?;
                l.expect(']')?;
                Ok(Ty::Arr(n as u64, Rc::new(t)))
            }
            Tok::P('<') => {
                if l.eat('{') {
                    let f = self.fields(l)?;
                    l.expect('>')?;
                    return Ok(Ty::Struct(true, Rc::new(f)));
                }
                let n = self.num(l)?;
                if !l.eatw("x") { return Err("vector type".into()); }
                let t = self.ty(l)?;
                l.expect('>')?;
                Ok(Ty::Vec(n as u64, Rc::new(t)))
            }
            Tok::P('{') => Ok(Ty::Struct(false, Rc::new(self.fields(l)?))),
            Tok::Loc(n) => {
                if let Some(t) = self.types.borrow().get(n) { return Ok(t.clone()); }
                let s = self.type_src.get(n).ok_or(format!("unknown type %{}", n))?;
                if s == "opaque" { return Ok(Ty::Other); }
                let t = self.ty(&mut Lex::new(s))?;
                self.types.borrow_mut().insert(n.to_string(), t.clone());
                Ok(t)
            }
            t => Err(format!("type token {:?}", t)),
        }
    }
    fn fields(&self, l: &mut Lex) -> Result<Vec<Ty>, String> {
        let mut f = vec![];
        if l.eat('}') { return Ok(f); }
        loop {
            f.push(self.ty(l)?);
            if l.eat('}') { return Ok(f); }
            l.expect(',')?;
        }
    }
    fn num(&self, l: &mut Lex) -> Result<u128, String> {
        match l.next() { Tok::Num(n) => n.parse::<i128>().map(|v| v as u128).or_else(|_| n.parse::<u128>()).map_err(|e| format!("{} {}", n, e)), t => Err(format!("number, got {:?}", t)) }
    }
    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(_, f) => Val::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Val::C(0),
        }
    }
    pub fn constant(&self, l: &mut Lex, t: &Ty) -> Result<Val, String> {
        let w = match t { Ty::Int(w) => *w, Ty::Ptr => self.ptr_bits(), _ => 128 };
        match l.next() {
            Tok::Num(n) => {
                if matches!(t, Ty::Float(_)) {
                    // only the bit pattern forms appear in practice; decimal forms are converted
                    let v = if let Some(h) = n.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { n.parse::<f64>().map_err(|e| e.to_string())?.to_bits() };
                    return Ok(Val::C(v as u128));
                }
                if w > 128 { return Err(format!("i{} constant", w)); }
                let v = n.parse::<i128>().map(|v| v as u128).or_else(|_| n.parse::<u128>()).map_err(|e| format!("{} {}", n, e))?;
                Ok(Val::C(v & crate::expr::mask(w)))
            }
            Tok::Glob(n) => {
                let id = self.by_name.get(n).ok_or(format!("unknown global @{}", n))?;
                Ok(Val::C(self.addr_of(*id) as u128))
            }
            Tok::CStr(s) => Ok(Val::A(Rc::new(unescape(s).into_iter().map(|b| Val::C(b as u128)).collect()))),
            Tok::P('[') => self.agg(l, ']'),
            Tok::P('{') => self.agg(l, '}'),
            Tok::P('<') => {
                if l.eat('{') { let v = self.agg(l, '}')?; l.expect('>')?; return Ok(v); }
                self.agg(l, '>')
            }
            Tok::Word(x) => match x {
                "true" => Ok(Val::C(1)),
                "false" => Ok(Val::C(0)),
                "null" | "none" => Ok(Val::C(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
                "splat" => {
                    l.expect('(')?;
                    let et = self.ty(l)?;
                    let v = self.constant(l, &et)?;
                    l.expect(')')?;
                    let n = match t { Ty::Vec(n, _) => *n, _ => return Err("splat".into()) };
                    Ok(Val::A(Rc::new(vec![v; n as usize])))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    while let Tok::Word(_) = l.t { l.next(); }
                    l.expect('(')?;
                    let ft = self.ty(l)?;
                    let v = self.constant(l, &ft)?;
                    if !l.eatw("to") { return Err("const cast".into()); }
                    let tt = self.ty(l)?;
                    l.expect(')')?;
                    let tw = match tt { Ty::Int(w) => w, Ty::Ptr => self.ptr_bits(), _ => 128 };
                    match v { Val::C(c) => Ok(Val::C(c & crate::expr::mask(tw))), _ => Err("const cast agg".into()) }
                }
                "getelementptr" => {
                    while let Tok::Word(w) = l.t { if w == "inrange" { l.next(); l.skip_paren(); } else { l.next(); } }
                    l.expect('(')?;
                    let bt = self.ty(l)?;
                    l.expect(',')?;
                    let pt = self.ty(l)?;
                    let base = match self.constant(l, &pt)? { Val::C(c) => c as u64, _ => return Err("const gep base".into()) };
                    let mut off = 0u64;
                    let mut cur = bt;
                    let mut first = true;
                    while l.eat(',') {
                        let it = self.ty(l)?;
                        let v = match self.constant(l, &it)? { Val::C(c) => c, _ => return Err("const gep idx".into()) };
                        let iw = match it { Ty::Int(w) => w, _ => 64 };
                        let idx = crate::expr::sext(v, iw) as i64;
                        if first { off = off.wrapping_add((size_align(self, &cur).0 as i64).wrapping_mul(idx) as u64); first = false; }
                        else { let (o, t) = field_off(self, &cur, idx as u64); off = off.wrapping_add(o); cur = t; }
                    }
                    l.expect(')')?;
                    Ok(Val::C((base.wrapping_add(off) as u128) & crate::expr::mask(self.ptr_bits())))
                }
                "add" | "sub" | "xor" | "mul" => {
                    while let Tok::Word(_) = l.t { l.next(); }
                    l.expect('(')?;
                    let t1 = self.ty(l)?; let a = self.constant(l, &t1)?;
                    l.expect(',')?;
                    let t2 = self.ty(l)?; let b = self.constant(l, &t2)?;
                    l.expect(')')?;
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Ok(Val::C(match x { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b } & crate::expr::mask(w))),
                        _ => Err("constexpr".into()),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.constant(l, t),
                x => {
                    if x.starts_with("f0x") || x.starts_with("0x") { return Ok(Val::C(0)); }
                    Err(format!("constant word {}", x))
                }
            },
            t => Err(format!("constant token {:?}", t)),
        }
    }
    fn agg(&self, l: &mut Lex, end: char) -> Result<Val, String> {
        let mut v = vec![];
        if l.eat(end) { return Ok(Val::A(Rc::new(v))); }
        loop {
            let t = self.ty(l)?;
            v.push(self.constant(l, &t)?);
            if l.eat(end) { return Ok(Val::A(Rc::new(v))); }
            l.expect(',')?;
        }
    }
    /// (size, initial bytes) of a global variable; None for external ones
    pub fn global_init(&self, id: u32) -> Result<(u64, Vec<u8>), String> {
        let d = &self.defs[id as usize];
        let s = &self.src[d.text.0..d.text.1];
        let mut l = Lex::new(s.trim_end());
        l.next(); // name
        l.expect('=')?;
        let mut ext = false;
        loop {
            match l.t {
                Tok::Word("global") | Tok::Word("constant") => { l.next(); break; }
                Tok::Word("external") | Tok::Word("extern_weak") => { ext = true; l.next(); }
                Tok::Word("alias") => return Err(format!("alias {}", d.name)),
                Tok::Eof => return Err(format!("global {}", d.name)),
                Tok::P('(') => l.skip_paren(),
                _ => { l.next(); }
            }
        }
        let t = self.ty(&mut l)?;
        let sz = size_align(self, &t).0;
        let mut b = vec![0u8; sz as usize];
        if !ext { let v = self.constant(&mut l, &t)?; self.put(&t, &v, &mut b, 0); }
        Ok((sz, b))
    }
    fn put(&self, t: &Ty, v: &Val, b: &mut [u8], off: usize) {
        match (t, v) {
            (Ty::Arr(..), Val::A(x)) | (Ty::Struct(..), Val::A(x)) | (Ty::Vec(..), Val::A(x)) => {
                for (i, e) in x.iter().enumerate() { let (o, et) = field_off(self, t, i as u64); self.put(&et, e, b, off + o as usize); }
            }
            (_, Val::C(c)) => {
                let n = store_size(self, t) as usize;
                let bytes = c.to_le_bytes();
                for i in 0..n.min(16) { b[off + i] = bytes[i]; }
            }
            _ => {}
        }
    }

    pub fn func(&self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.funcs.borrow()[id as usize] { return Ok(f.clone()); }
        let d = &self.defs[id as usize];
        if !d.defined { return Err(format!("call of external function {}", d.name)); }
        let f = Rc::new(self.parse_func(id).map_err(|e| format!("parsing {}: {}", d.name, e))?);
        self.funcs.borrow_mut()[id as usize] = Some(f.clone());
        Ok(f)
    }

    fn parse_func(&self, id: u32) -> Result<Func, String> {
        let d = &self.defs[id as usize];
        let text = &self.src[d.text.0..d.text.1];
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let mut regs: FxMap<String, u32> = Default::default();
        let mut nregs = 0u32;
        // parameters
        let mut l = Lex::new(head);
        while l.t != Tok::Glob(&d.name) { if l.t == Tok::Eof { return Err("header".into()); } if l.t == Tok::P('(') { l.skip_paren(); } else { l.next(); } }
        l.next();
        l.expect('(')?;
        let mut nparams = 0;
        while !l.eat(')') {
            if l.eatw("...") { continue; }
            let _t = self.ty(&mut l)?;
            self.skip_attrs(&mut l);
            if let Tok::Loc(n) = l.t { regs.insert(n.to_string(), nregs); l.next(); }
            nregs += 1;
            nparams += 1;
            l.eat(',');
        }
        // logical lines
        let mut blocks_src: Vec<(String, Vec<String>)> = vec![];
        let mut cur_name: Option<String> = None;
        let mut cur: Vec<String> = vec![];
        let mut first_unnamed = true;
        for line in lines {
            if line == "}" { break; }
            let t = line.trim();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') { continue; }
            if !line.starts_with(' ') {
                // label
                let lab = t.split(':').next().unwrap();
                let lab = if t.starts_with('"') { t[1..].split('"').next().unwrap() } else { lab };
                if cur_name.is_some() || !cur.is_empty() { blocks_src.push((cur_name.take().unwrap_or_default(), std::mem::take(&mut cur))); }
                cur_name = Some(lab.to_string());
                first_unnamed = false;
                continue;
            }
            if (line.starts_with("   ") || t.starts_with(']')) && !cur.is_empty() {
                let k = cur.last_mut().unwrap();
                k.push('\n');
                k.push_str(t);
            } else { cur.push(t.to_string()); }
        }
        blocks_src.push((cur_name.take().unwrap_or_default(), cur));
        // the entry block without a label is numbered after the parameters
        let _ = first_unnamed;
        if blocks_src[0].0.is_empty() {
            // implicit number = count of unnamed params
            let head_unnamed = regs.iter().filter(|(k, _)| k.bytes().all(|c| c.is_ascii_digit())).count();
            blocks_src[0].0 = head_unnamed.to_string();
        }
        let mut labels: FxMap<String, u32> = Default::default();
        for (i, (n, _)) in blocks_src.iter().enumerate() { labels.insert(n.clone(), i as u32); }
        for (_, ins) in &blocks_src {
            for s in ins {
                if s.starts_with('%') {
                    if let Some(k) = s.find(" = ") {
                        let n = s[1..k].trim_matches('"').to_string();
                        if !regs.contains_key(&n) { regs.insert(n, nregs); nregs += 1; }
                    }
                }
            }
        }
        let mut blocks = vec![];
        for (_, ins) in &blocks_src {
            let mut b = Block::default();
            for s in ins {
                let mut p = PF { m: self, l: Lex::new(s), regs: &regs, labels: &labels };
                let mut dst = NODST;
                if let Tok::Loc(n) = p.l.t {
                    dst = regs[n];
                    p.l.next();
                    p.l.expect('=')?;
                }
                if p.l.t == Tok::Word("phi") {
                    p.l.next();
                    let t = self.ty(&mut p.l)?;
                    let mut inc = vec![];
                    loop {
                        p.l.expect('[')?;
                        let v = p.val(&t)?;
                        p.l.expect(',')?;
                        let lab = p.label_tok()?;
                        p.l.expect(']')?;
                        inc.push((lab, v));
                        if !p.l.eat(',') { break; }
                        if p.l.t != Tok::P('[') { break; }
                    }
                    b.phis.push((dst, inc));
                    continue;
                }
                let i = match p.ins() { Ok(i) => i, Err(e) => I::Unsupported(format!("{} in `{}`", e, s)) };
                b.ins.push(Ins { dst, i });
            }
            blocks.push(b);
        }
        Ok(Func { id, name: d.name.clone(), nparams, nregs, blocks })
    }
    fn skip_attrs(&self, l: &mut Lex) {
        loop {
            match l.t {
                Tok::Word(w) => {
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "asm" | "trunc" | "zext" | "dso_local_equivalent" | "no_cfi") { return; }
                    if matches!(w, "add" | "sub" | "xor") { return; }
                    l.next();
                    if l.t == Tok::P('(') { l.skip_paren(); }
                    else if w == "align" { if let Tok::Num(_) = l.t { l.next(); } }
                }
                Tok::Str(_) => { l.next(); if l.eat('=') { l.next(); } }
                _ => return,
            }
        }
    }
}

struct PF<'a, 'b> { m: &'b Module, l: Lex<'a>, regs: &'b FxMap<String, u32>, labels: &'b FxMap<String, u32> }
impl<'a, 'b> PF<'a, 'b> {
    fn val(&mut self, t: &Ty) -> Result<Opd, String> {
        if let Tok::Loc(n) = self.l.t { self.l.next(); return Ok(Opd::R(*self.regs.get(n).ok_or(format!("unknown reg %{}", n))?)); }
        Ok(Opd::K(self.m.constant(&mut self.l, t)?))
    }
    fn tval(&mut self) -> Result<(Ty, Opd), String> { let t = self.m.ty(&mut self.l)?; let v = self.val(&t)?; Ok((t, v)) }
    fn label_tok(&mut self) -> Result<u32, String> {
        match self.l.next() { Tok::Loc(n) => self.labels.get(n).copied().ok_or(format!("label {}", n)), t => Err(format!("label {:?}", t)) }
    }
    fn label(&mut self) -> Result<u32, String> { if !self.l.eatw("label") { return Err("label kw".into()); } self.label_tok() }
    fn flags(&mut self) {
        while let Tok::Word(w) = self.l.t {
            if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "inalloca") { self.l.next(); } else { break; }
        }
    }
    fn lanes(t: &Ty, m: &Module) -> Result<(u16, u32), String> {
        match t {
            Ty::Int(w) if *w <= 128 => Ok((*w, 0)),
            Ty::Ptr => Ok((m.ptr_bits(), 0)),
            Ty::Vec(n, e) => { let (w, _) = Self::lanes(e, m)?; Ok((w, *n as u32)) }
            t => Err(format!("arith on {:?}", t)),
        }
    }
    fn ins(&mut self) -> Result<I, String> {
        let op = match self.l.next() { Tok::Word(w) => w, t => return Err(format!("opcode {:?}", t)) };
        let bin = |o| Some(o);
        let b = match op {
            "add" => bin(BinOp::Add), "sub" => bin(BinOp::Sub), "mul" => bin(BinOp::Mul), "udiv" => bin(BinOp::UDiv), "urem" => bin(BinOp::URem),
            "sdiv" => bin(BinOp::SDiv), "srem" => bin(BinOp::SRem), "and" => bin(BinOp::And), "or" => bin(BinOp::Or), "xor" => bin(BinOp::Xor),
            "shl" => bin(BinOp::Shl), "lshr" => bin(BinOp::LShr), "ashr" => bin(BinOp::AShr), _ => None,
        };
        if let Some(b) = b {
            self.flags();
            let (t, x) = self.tval()?;
            self.l.expect(',')?;
            let y = self.val(&t)?;
            let (w, n) = Self::lanes(&t, self.m)?;
            return Ok(I::Bin(b, w, n, x, y));
        }
        match op {
            "icmp" => {
                self.flags();
                let p = match self.l.next() {
                    Tok::Word(w) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, w => return Err(w.into()) },
                    t => return Err(format!("{:?}", t)),
                };
                let (t, x) = self.tval()?;
                self.l.expect(',')?;
                let y = self.val(&t)?;
                let (w, n) = Self::lanes(&t, self.m)?;
                Ok(I::Icmp(p, w, n, x, y))
            }
            "zext" | "sext" | "trunc" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "addrspacecast" => {
                self.flags();
                let (t, x) = self.tval()?;
                if !self.l.eatw("to") { return Err("cast".into()); }
                let t2 = self.m.ty(&mut self.l)?;
                if !matches!(op, "bitcast") { Self::lanes(&t, self.m)?; Self::lanes(&t2, self.m)?; }
                let c = match op {
                    "zext" => CastOp::Zext, "sext" => CastOp::Sext, "trunc" => CastOp::Trunc, "bitcast" => CastOp::Bitcast,
                    _ => {
                        let (a, _) = Self::lanes(&t, self.m)?; let (b, _) = Self::lanes(&t2, self.m)?;
                        if a == b { CastOp::Same } else if a < b { CastOp::Zext } else { CastOp::Trunc }
                    }
                };
                Ok(I::Cast(c, t, t2, x))
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tval()?;
                self.l.expect(',')?;
                let (t, a) = self.tval()?;
                self.l.expect(',')?;
                let (_, b) = self.tval()?;
                Ok(I::Select(c, a, b, t, matches!(ct, Ty::Vec(..))))
            }
            "freeze" => { let (t, x) = self.tval()?; Ok(I::Cast(CastOp::Same, t.clone(), t, x)) }
            "getelementptr" => {
                self.flags();
                let bt = self.m.ty(&mut self.l)?;
                self.l.expect(',')?;
                let (pt, base) = self.tval()?;
                if pt != Ty::Ptr { return Err("vector gep".into()); }
                let mut k = 0u64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.l.eat(',') {
                    if self.l.t == Tok::Meta { break; }
                    let (it, iv) = self.tval()?;
                    let iw = match it { Ty::Int(w) => w, _ => return Err("gep index".into()) };
                    let scale = if first { size_align(self.m, &cur).0 } else { match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => size_align(self.m, e).0, _ => 0 } };
                    match iv {
                        Opd::K(Val::C(c)) => {
                            let idx = crate::expr::sext(c, iw) as i64;
                            if first { k = k.wrapping_add((scale as i64).wrapping_mul(idx) as u64); }
                            else { let (o, t) = match &cur { Ty::Struct(..) => field_off(self.m, &cur, idx as u64), Ty::Arr(_, e) | Ty::Vec(_, e) => ((scale as i64).wrapping_mul(idx) as u64, (**e).clone()), _ => return Err("gep into scalar".into()) }; k = k.wrapping_add(o); cur = t; }
                        }
                        v => {
                            dynv.push((v, iw, scale));
                            if !first { cur = match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => return Err("dyn struct index".into()) }; }
                        }
                    }
                    first = false;
                }
                Ok(I::Gep(base, k, dynv))
            }
            "load" => {
                self.flags();
                let t = self.m.ty(&mut self.l)?;
                self.l.expect(',')?;
                let (_, p) = self.tval()?;
                Self::loadable(&t)?;
                Ok(I::Load(t, p))
            }
            "store" => {
                self.flags();
                let (t, v) = self.tval()?;
                self.l.expect(',')?;
                let (_, p) = self.tval()?;
                Self::loadable(&t)?;
                Ok(I::Store(t, v, p))
            }
            "alloca" => {
                self.flags();
                let t = self.m.ty(&mut self.l)?;
                let mut n = 1u64;
                if self.l.eat(',') {
                    if let Tok::Word(w) = self.l.t { if is_int_ty(w).is_some() { let (_, v) = self.tval()?; match v { Opd::K(Val::C(c)) => n = c as u64, _ => return Err("dynamic alloca".into()) } } }
                }
                Ok(I::Alloca(size_align(self.m, &t).0 * n))
            }
            "tail" | "musttail" | "notail" => { if !self.l.eatw("call") { return Err("tail".into()); } self.call(false) }
            "call" => self.call(false),
            "invoke" => self.call(true),
            "extractvalue" => {
                let (_, v) = self.tval()?;
                let mut ix = vec![];
                while self.l.eat(',') { if let Tok::Num(_) = self.l.t { ix.push(self.m.num(&mut self.l)? as u32); } else { break; } }
                Ok(I::Extract(v, ix))
            }
            "insertvalue" => {
                let (_, v) = self.tval()?;
                self.l.expect(',')?;
                let (_, e) = self.tval()?;
                let mut ix = vec![];
                while self.l.eat(',') { if let Tok::Num(_) = self.l.t { ix.push(self.m.num(&mut self.l)? as u32); } else { break; } }
                Ok(I::Insert(v, e, ix))
            }
            "extractelement" => { let (_, v) = self.tval()?; self.l.expect(',')?; let (_, i) = self.tval()?; Ok(I::ExtElem(v, i)) }
            "insertelement" => {
                let (t, v) = self.tval()?; self.l.expect(',')?; let (_, e) = self.tval()?; self.l.expect(',')?; let (_, i) = self.tval()?;
                let n = match t { Ty::Vec(n, _) => n, _ => return Err("insertelement".into()) };
                Ok(I::InsElem(v, e, i, n))
            }
            "shufflevector" => {
                let (t, a) = self.tval()?; self.l.expect(',')?; let (_, b) = self.tval()?; self.l.expect(',')?;
                let mt = self.m.ty(&mut self.l)?;
                let mv = self.m.constant(&mut self.l, &mt)?;
                let n = match t { Ty::Vec(n, _) => n, _ => return Err("shuffle".into()) };
                let mask = match mv { Val::A(v) => v.iter().map(|x| match x { Val::C(c) => *c as u32, _ => 0 }).collect(), _ => return Err("shuffle mask".into()) };
                Ok(I::Shuffle(a, b, mask, n))
            }
            "atomicrmw" => {
                self.flags();
                let o = match self.l.next() { Tok::Word(w) => match w { "xchg" => 0u8, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, w => return Err(format!("atomicrmw {}", w)) }, _ => return Err("rmw".into()) };
                let (_, p) = self.tval()?;
                self.l.expect(',')?;
                let (t, v) = self.tval()?;
                let (w, _) = Self::lanes(&t, self.m)?;
                Ok(I::AtomicRmw(o, w, p, v))
            }
            "cmpxchg" => {
                if self.l.eatw("weak") {}
                self.flags();
                let (_, p) = self.tval()?;
                self.l.expect(',')?;
                let (t, a) = self.tval()?;
                self.l.expect(',')?;
                let (_, b) = self.tval()?;
                let (w, _) = Self::lanes(&t, self.m)?;
                Ok(I::CmpXchg(w, p, a, b))
            }
            "fence" => Ok(I::Nop),
            "landingpad" => Ok(I::Unsupported("landingpad".into())),
            "resume" => Ok(I::Unsupported("resume".into())),
            "br" => {
                if self.l.t == Tok::Word("label") { return Ok(I::Br(self.label()?)); }
                let (_, c) = self.tval()?;
                self.l.expect(',')?;
                let a = self.label()?;
                self.l.expect(',')?;
                let b = self.label()?;
                Ok(I::CondBr(c, a, b))
            }
            "switch" => {
                let (t, v) = self.tval()?;
                let (w, _) = Self::lanes(&t, self.m)?;
                self.l.expect(',')?;
                let d = self.label()?;
                self.l.expect('[')?;
                let mut cs = vec![];
                while !self.l.eat(']') {
                    let (_, k) = self.tval()?;
                    self.l.expect(',')?;
                    let lab = self.label()?;
                    match k { Opd::K(Val::C(c)) => cs.push((c, lab)), _ => return Err("switch case".into()) }
                }
                Ok(I::Switch(v, w, d, cs))
            }
            "ret" => {
                let t = self.m.ty(&mut self.l)?;
                if t == Ty::Void { return Ok(I::Ret(None)); }
                Ok(I::Ret(Some(self.val(&t)?)))
            }
            "unreachable" => Ok(I::Unreachable),
            o => Err(format!("opcode {}", o)),
        }
    }
    fn loadable(t: &Ty) -> Result<(), String> {
        match t {
            Ty::Int(w) if *w > 128 => Err(format!("i{} memory access", w)),
            Ty::Vec(_, e) => match **e { Ty::Int(w) if w % 8 == 0 => Ok(()), Ty::Ptr => Ok(()), _ => Err("vector memory access".into()) },
            Ty::Other => Err("opaque".into()),
            _ => Ok(()),
        }
    }
    fn call(&mut self, invoke: bool) -> Result<I, String> {
        // flags, calling convention and return attributes
        loop {
            if self.m.is_type_start(&self.l.t) { break; }
            match self.l.t {
                Tok::Word(w) => {
                    self.l.next();
                    if self.l.t == Tok::P('(') { self.l.skip_paren(); }
                    else if w == "align" || w == "cc" { if let Tok::Num(_) = self.l.t { self.l.next(); } }
                }
                Tok::Str(_) => { self.l.next(); }
                t => return Err(format!("call prefix {:?}", t)),
            }
        }
        let ret = self.m.ty(&mut self.l)?;
        if self.l.t == Tok::P('(') { self.l.skip_paren(); }
        let callee = match self.l.next() {
            Tok::Glob(n) => match self.m.by_name.get(n) { Some(i) => Callee::Direct(*i), None => Callee::Named(n.into()) },
            Tok::Loc(n) => Callee::Ind(Opd::R(*self.regs.get(n).ok_or("callee reg")?)),
            Tok::Word("asm") => Callee::Named("asm".into()),
            t => return Err(format!("callee {:?}", t)),
        };
        if let Callee::Named(n) = &callee { if &**n == "asm" { return Err("inline asm".into()); } }
        self.l.expect('(')?;
        let mut args = vec![];
        let mut argtys = vec![];
        while !self.l.eat(')') {
            let t = self.m.ty(&mut self.l)?;
            if t == Ty::Other {
                // metadata argument
                let mut d = 0;
                loop {
                    match self.l.t { Tok::P('(') => d += 1, Tok::P(')') => { if d == 0 { break; } d -= 1 } Tok::P(',') if d == 0 => break, Tok::Eof => break, _ => {} }
                    self.l.next();
                }
            } else {
                self.m.skip_attrs(&mut self.l);
                let v = self.val(&t)?;
                args.push(v);
                argtys.push(t);
            }
            self.l.eat(',');
        }
        let mut normal = None;
        if invoke {
            while self.l.t != Tok::Word("to") { if self.l.t == Tok::Eof { return Err("invoke".into()); } self.l.next(); }
            self.l.next();
            normal = Some(self.label()?);
        }
        Ok(I::Call(Box::new(CallI { callee, args, ret, argtys, normal })))
    }
}
/// Imports of the wasm build keep their mangled names.
fn intrinsic(n: &str) -> &str {
    if n.starts_with("_RN") && n.contains("2vh") { n.find("sym_").map_or(n, |i| &n[i..]) } else { n }
}
