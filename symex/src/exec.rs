//! Symbolic executor: states, memory, instruction semantics, path exploration.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub b: Vec<u8>, pub sym: Option<Box<Vec<u64>>>, pub heap: bool }
impl Obj {
    fn new(n: usize, heap: bool) -> Obj { Obj { b: vec![0; n], sym: None, heap } }
}
const PG: usize = 32;
/// In 32-bit address spaces objects have 64 KiB each; from this number, and
/// address, on they have 1 MiB.
const BIG: u32 = 0xf000;
const BIG_AT: u64 = 0xf000_0000;
type Page = [Option<Rc<Obj>>; PG];

#[derive(Clone)]
pub struct Mem { pages: Vec<Rc<Page>>, free: Vec<u32>, next: u32, pub live: u64 }
impl Mem {
    fn new(first: u32) -> Mem { Mem { pages: vec![], free: vec![], next: first, live: 0 } }
    #[inline]
    fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let id = id as usize;
        self.pages.get(id / PG).and_then(|p| p[id % PG].as_ref())
    }
    #[inline]
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let id = id as usize;
        while self.pages.len() <= id / PG { self.pages.push(Rc::new(std::array::from_fn(|_| None))); }
        let p = &mut self.pages[id / PG];
        let p = Rc::make_mut(p);
        &mut p[id % PG]
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> { self.slot(id).as_mut().map(Rc::make_mut) }
    fn alloc(&mut self, n: usize, heap: bool) -> u32 {
        let id = match self.free.pop() { Some(i) => i, None => { let i = self.next; self.next += 1; i } };
        *self.slot(id) = Some(Rc::new(Obj::new(n, heap)));
        self.live += 1;
        id
    }
    /// An object in the part of a 32-bit address space where they are large.
    fn alloc_big(&mut self, n: usize) -> u32 {
        let mut id = BIG;
        while self.get(id).is_some() { id += 1; }
        *self.slot(id) = Some(Rc::new(Obj::new(n, true)));
        self.live += 1;
        id
    }
    fn release(&mut self, id: u32) {
        *self.slot(id) = None;
        if id < BIG || self.next > BIG { self.free.push(id); }
        self.live -= 1;
    }
}

#[derive(Clone)]
pub struct Frame { f: Rc<Func>, regs: Vec<Val>, blk: u32, ip: u32, dst: u32, normal: Option<u32>, allocas: Vec<u32> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    multi: Vec<E>,
    dom: Vec<[u64; 4]>,
    in_multi: Vec<bool>,
    conc: FxMap<E, u128>,
    model: Rc<Vec<u8>>,
    model_id: u64,
    inputs: Vec<u32>,
    notes: Vec<(u32, Val)>,
    covers: BTreeSet<u32>,
    steps: u64,
    asserts: u64,
    forks: u32,
}

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub id: u64, pub msg: String, pub inputs: Vec<u8>, pub stack: Vec<String> }

pub struct Trace { pub end: String, pub inputs: Vec<u8>, pub notes: Vec<(u32, u64)>, pub asserts: u64 }

pub struct Limits { pub max_paths: u64, pub max_time: f64, pub max_steps: u64, pub max_depth: usize, pub max_viol: usize, pub max_traces: usize }

#[derive(Default)]
pub struct Stats {
    pub paths_ok: u64, pub paths_assumed_away: u64, pub paths_viol: u64, pub forks: u64, pub steps: u64,
    pub asserts_checked: u64, pub asserts_solver: u64, pub branches_sym: u64, pub maxdepth: usize, pub dom_decided: u64,
}

pub enum Stop { Fork(Vec<State>), Replace(Vec<State>), End(String), Viol(Viol), Err(String) }
type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Err(s.into())) }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub cx: Ctx,
    pub z: Z3,
    pub params: Vec<u64>,
    globals: Vec<Option<Rc<Obj>>>,
    builtins: Vec<u8>, // 0 unknown, 1 none, 2 builtin
    pub lim: Limits,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub traces: Vec<Trace>,
    pub covers: BTreeMap<u32, u64>,
    pub executed: Vec<bool>,
    pub incomplete: Option<String>,
    pub trace_calls: bool,
    pub split: (u64, u64),
    next_model: u64,
    qcache: std::collections::HashMap<(Vec<E>, Vec<(u32, [u64; 4])>), Option<Vec<(u32, u8)>>>,
    pub cache_hits: u64,
    pub prof: BTreeMap<String, u64>,
    t0: Instant,
    /// have the solver confirm what byte domains decide as infeasible
    pub z3_all: bool,
    confirmed: std::collections::HashSet<(Vec<E>, Vec<(u32, [u64; 4])>)>,
    pub seed: u64,
    ended: u64,
    /// integers made out of digits: their printed form
    pub digits: FxMap<E, Rc<Vec<Val>>>,
}

const FULL: [u64; 4] = [!0; 4];
fn d_and(a: [u64; 4], b: [u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn d_empty(a: [u64; 4]) -> bool { a == [0; 4] }
fn d_count(a: &[u64; 4]) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
fn d_iter(a: [u64; 4]) -> impl Iterator<Item = u8> { (0..256usize).filter(move |i| a[i >> 6] >> (i & 63) & 1 == 1).map(|i| i as u8) }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, lim: Limits, z3_ms: u32) -> Self {
        let n = m.defs.len();
        Exec {
            m, cx: Ctx::new(), z: Z3::new(z3_ms), params: vec![], globals: vec![None; n], builtins: vec![0; n], lim,
            stats: Default::default(), viols: vec![], traces: vec![], covers: BTreeMap::new(), executed: vec![false; n],
            incomplete: None, trace_calls: false, split: (0, 1), next_model: 1, qcache: Default::default(), cache_hits: 0,
            prof: BTreeMap::new(), t0: Instant::now(), z3_all: false, confirmed: Default::default(), seed: 1, ended: 0, digits: Default::default(),
        }
    }
    // ---- values ----
    fn mk(&self, e: E) -> Val { match self.cx.as_const(e) { Some(k) => Val::C(k), None => Val::S(e) } }
    fn ex(&mut self, v: &Val, w: u16) -> E {
        match v { Val::C(c) => self.cx.cst(*c, w), Val::S(e) => { debug_assert_eq!(self.cx.w(*e), w); *e } Val::A(_) => panic!("symex: aggregate used as scalar") }
    }
    // ---- solver ----
    fn new_model(&mut self, s: &State, ch: &[(u32, u8)]) -> (Rc<Vec<u8>>, u64) {
        let mut v = (*s.model).clone();
        for (i, b) in ch { if v.len() <= *i as usize { v.resize(*i as usize + 1, 0) } v[*i as usize] = *b; }
        self.next_model += 1;
        (Rc::new(v), self.next_model)
    }
    fn slice(&self, s: &State, e: E) -> (Vec<E>, Vec<u32>) {
        let mut vars: BTreeSet<u32> = self.cx.vars(e).iter().cloned().collect();
        let mut used = vec![false; s.multi.len()];
        loop {
            let mut ch = false;
            for (i, c) in s.multi.iter().enumerate() {
                if used[i] { continue; }
                let cv = self.cx.vars(*c);
                if cv.iter().any(|v| vars.contains(v)) { used[i] = true; ch = true; vars.extend(cv.iter().cloned()); }
            }
            if !ch { break; }
        }
        let mut cs: Vec<E> = s.multi.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        cs.sort_unstable();
        cs.dedup();
        (cs, vars.into_iter().collect())
    }
    fn eval(&mut self, s: &State, e: E) -> u128 { self.cx.eval(e, &s.model, s.model_id) }
    /// Is `e` satisfiable together with the path condition? Returns a model if so.
    fn feasible(&mut self, s: &State, e: E) -> R<Option<(Rc<Vec<u8>>, u64)>> {
        if let Some(k) = self.cx.as_const(e) { return Ok(if k == 1 { Some((s.model.clone(), s.model_id)) } else { None }); }
        if self.eval(s, e) == 1 { return Ok(Some((s.model.clone(), s.model_id))); }
        let (cs, vars) = self.slice(s, e);
        let nv = self.cx.vars(e).len();
        if nv == 1 {
            let v = self.cx.vars(e)[0];
            let bm = d_and(self.cx.bitmap(e), s.dom[v as usize]);
            if d_empty(bm) {
                self.stats.dom_decided += 1;
                if self.z3_all {
                    let key = (vec![e], vec![(v, s.dom[v as usize])]);
                    if !self.confirmed.contains(&key) {
                        match self.z.check(&mut self.cx, &key.0, &key.1) {
                            Res::Unsat => { self.confirmed.insert(key); }
                            Res::Sat(_) => return err("internal: solver contradicts the byte domain"),
                            Res::Unknown => return err("solver returned unknown on a byte domain query"),
                        }
                    }
                }
                return Ok(None);
            }
            if cs.is_empty() {
                self.stats.dom_decided += 1;
                let b = d_iter(bm).next().unwrap();
                return Ok(Some(self.new_model(s, &[(v, b)])));
            }
            // candidate values for this byte that keep the other constraints true
            let mut tried = 0;
            for b in d_iter(bm) {
                let (m, id) = self.new_model(s, &[(v, b)]);
                if cs.iter().all(|c| self.cx.eval(*c, &m, id) == 1) { self.stats.dom_decided += 1; return Ok(Some((m, id))); }
                tried += 1;
                if tried >= 4 { break; }
            }
        }
        let doms: Vec<(u32, [u64; 4])> = vars.iter().map(|v| (*v, s.dom[*v as usize])).collect();
        let mut all = cs;
        all.push(e);
        let key = (all, doms);
        if let Some(r) = self.qcache.get(&key) {
            self.cache_hits += 1;
            let r = r.clone();
            return Ok(match r { None => None, Some(ch) => Some(self.new_model(s, &ch)) });
        }
        let res = self.z.check(&mut self.cx, &key.0, &key.1);
        let r = match res {
            Res::Unsat => None,
            Res::Sat(ch) => Some(ch),
            Res::Unknown => return err(format!("solver returned unknown (timeout) on {}", self.cx.show(e, 6))),
        };
        self.qcache.insert(key, r.clone());
        match r {
            None => Ok(None),
            Some(ch) => {
                let (m, id) = self.new_model(s, &ch);
                if self.cx.eval(e, &m, id) != 1 { return err("internal: solver model does not satisfy the query under the evaluator"); }
                Ok(Some((m, id)))
            }
        }
    }
    /// add `e` to the path condition; `m` is a model of path condition and `e`
    fn add(&mut self, s: &mut State, e: E, m: (Rc<Vec<u8>>, u64)) {
        s.model = m.0;
        s.model_id = m.1;
        self.add_c(s, e);
    }
    fn add_c(&mut self, s: &mut State, e: E) {
        if self.cx.as_const(e).is_some() { return; }
        // split conjunctions
        let (op, w, a, b) = { let n = &self.cx.n[e as usize]; (n.op, n.w, n.a, n.b) };
        if op == Op::And && w == 1 { self.add_c(s, a); self.add_c(s, b); return; }
        // not(or(a,b)) = not a and not b
        if op == Op::Xor && w == 1 && self.cx.as_const(b) == Some(1) {
            let (o2, p, q) = { let n = &self.cx.n[a as usize]; (n.op, n.a, n.b) };
            if o2 == Op::Or { let p = self.cx.not(p); let q = self.cx.not(q); self.add_c(s, p); self.add_c(s, q); return; }
        }
        let vs = self.cx.vars(e);
        if vs.len() == 1 {
            let v = vs[0] as usize;
            let bm = self.cx.bitmap(e);
            s.dom[v] = d_and(s.dom[v], bm);
        } else {
            for v in vs.to_vec() { s.in_multi[v as usize] = true; }
            if !s.multi.contains(&e) { s.multi.push(e); }
        }
    }
    fn singletons(&self, s: &State, e: E) -> bool { self.cx.vars(e).iter().all(|v| d_count(&s.dom[*v as usize]) == 1) }
    /// all feasible values of `e` (at most `limit`)
    fn enumerate(&mut self, s: &State, e: E, limit: usize) -> R<Vec<u128>> {
        if self.singletons(s, e) { return Ok(vec![self.eval(s, e)]); }
        let mut out: BTreeSet<u128> = BTreeSet::new();
        let w = self.cx.w(e);
        if self.cx.vars(e).len() == 1 {
            let v = self.cx.vars(e)[0];
            let t = self.cx.table(e);
            let mut vals: BTreeSet<u128> = BTreeSet::new();
            for b in d_iter(s.dom[v as usize]) { vals.insert(t[b as usize]); }
            if vals.len() > limit { return err(format!("more than {} values for a concretised expression {}", limit, self.cx.show(e, 5))); }
            if !s.in_multi[v as usize] { return Ok(vals.into_iter().collect()); }
            for k in vals {
                let kc = self.cx.cst(k, w);
                let q = self.cx.bin(Op::Eq, e, kc);
                if self.feasible(s, q)?.is_some() { out.insert(k); }
            }
            return Ok(out.into_iter().collect());
        }
        let mut c = self.cx.tru();
        loop {
            match self.feasible(s, c)? {
                None => break,
                Some((m, id)) => {
                    let k = self.cx.eval(e, &m, id);
                    if !out.insert(k) { return err("internal: enumeration does not progress"); }
                    if self.t0.elapsed().as_secs_f64() > self.lim.max_time { return err("time limit"); }
                    if out.len() > limit { return err(format!("more than {} values for a concretised expression {}", limit, self.cx.show(e, 5))); }
                    let kc = self.cx.cst(k, w);
                    let q = self.cx.bin(Op::Eq, e, kc);
                    let nq = self.cx.not(q);
                    c = self.cx.and1(c, nq);
                }
            }
        }
        Ok(out.into_iter().collect())
    }
    /// concretise; forks (re-executing the current instruction) when several values are possible
    fn conc(&mut self, s: &mut State, v: &Val, limit: usize) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::A(_) => err("aggregate concretised"),
            Val::S(e) => {
                let e = *e;
                if let Some(k) = s.conc.get(&e) { return Ok(*k); }
                let vals = self.enumerate(s, e, limit)?;
                if vals.is_empty() { return err("internal: infeasible state"); }
                let w = self.cx.w(e);
                if vals.len() == 1 { s.conc.insert(e, vals[0]); return Ok(vals[0]); }
                let mut out = vec![];
                for k in vals {
                    let kc = self.cx.cst(k, w);
                    let q = self.cx.bin(Op::Eq, e, kc);
                    if let Some(m) = self.feasible(s, q)? {
                        let mut t = s.clone();
                        self.add(&mut t, q, m);
                        t.conc.insert(e, k);
                        out.push(t);
                    }
                }
                Err(Stop::Replace(out))
            }
        }
    }
    // ---- memory ----
    fn nglob(&self) -> u32 { self.m.defs.len() as u32 }
    /// The number (0: none) of the object an address is in, and the offset there.
    fn split_addr(&self, a: u64) -> (u32, u64) {
        if self.m.ptr_bytes == 4 && a >= BIG_AT { return (BIG + ((a - BIG_AT) >> 20) as u32, a & 0xf_ffff); }
        ((a >> self.m.obj_shift) as u32, a & ((1u64 << self.m.obj_shift) - 1))
    }
    /// Where an object of this number starts.
    fn base(&self, id: u32) -> u64 {
        if self.m.ptr_bytes == 4 && id >= BIG { BIG_AT + (((id - BIG) as u64) << 20) } else { (id as u64) << self.m.obj_shift }
    }
    fn obj(&mut self, s: &State, id: u32) -> R<Rc<Obj>> {
        if id == 0 { return err("access through a null or dangling pointer"); }
        let i = id - 1;
        if let Some(o) = s.mem.get(i) { return Ok(o.clone()); }
        if i < self.nglob() { return self.global(i); }
        err("access to a dead object")
    }
    fn global(&mut self, i: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.globals[i as usize] { return Ok(o.clone()); }
        if self.m.defs[i as usize].is_fn { return err("data access to a function"); }
        let (_, b) = self.m.global_init(i).map_err(Stop::Err)?;
        let o = Rc::new(Obj { b, sym: None, heap: false });
        self.globals[i as usize] = Some(o.clone());
        Ok(o)
    }
    fn obj_mut<'s>(&mut self, s: &'s mut State, id: u32) -> R<&'s mut Obj> {
        if id == 0 { return err("write through a null or dangling pointer"); }
        let i = id - 1;
        if s.mem.get(i).is_none() {
            if i < self.nglob() { let o = self.global(i)?; *s.mem.slot(i) = Some(o); }
            else { return err("write to a dead object"); }
        }
        Ok(s.mem.get_mut(i).unwrap())
    }
    fn chk(&self, o: &Obj, off: u64, n: u64) -> R<()> {
        if off.checked_add(n).map_or(true, |e| e > o.b.len() as u64) { return err(format!("out-of-bounds access: offset {} size {} in object of {}", off, n, o.b.len())); }
        Ok(())
    }
    fn rd_int(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        if let Some(sy) = &o.sym {
            if sy[off..off + n].iter().any(|x| *x != 0) {
                let mut acc: Option<E> = None;
                let mut i = 0;
                while i < n {
                    let x = sy[off + i];
                    let p;
                    if x == 0 {
                        let mut j = i; let mut k = 0u128;
                        while j < n && sy[off + j] == 0 { k |= (o.b[off + j] as u128) << (8 * (j - i)); j += 1; }
                        p = self.cx.cst(k, 8 * (j - i) as u16);
                        i = j;
                    } else {
                        let mut j = i + 1;
                        while j < n && sy[off + j] == x + (j - i) as u64 { j += 1; }
                        p = self.cx.extract((x >> 8) as E, (x & 255) as u16 * 8, 8 * (j - i) as u16);
                        i = j;
                    }
                    acc = Some(match acc { None => p, Some(l) => self.cx.concat(p, l) });
                }
                return self.mk(acc.unwrap());
            }
        }
        let mut k = 0u128;
        for i in (0..n).rev() { k = k << 8 | o.b[off + i] as u128; }
        Val::C(k)
    }
    fn wr_int(&mut self, o: &mut Obj, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                o.b[off..off + n].copy_from_slice(&b[..n]);
                if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + n] { *x = 0; } }
            }
            Val::S(e) => {
                let e = self.cx.resize(*e, 8 * n as u16);
                let len = o.b.len();
                let sy = o.sym.get_or_insert_with(|| Box::new(vec![0; len]));
                for i in 0..n {
                    let be = self.cx.extract(e, 8 * i as u16, 8);
                    match self.cx.as_const(be) {
                        Some(k) => { sy[off + i] = 0; o.b[off + i] = k as u8; }
                        None => {
                            // keep a reference to the wide expression so that re-reading it is free
                            sy[off + i] = ((e as u64) << 8) | i as u64;
                        }
                    }
                }
            }
            Val::A(_) => panic!("wr_int aggregate"),
        }
    }
    fn rd(&mut self, o: &Obj, off: u64, t: &Ty) -> R<Val> {
        Ok(match t {
            Ty::Int(w) => {
                let n = ((*w as usize) + 7) / 8;
                self.chk(o, off, n as u64)?;
                let v = self.rd_int(o, off as usize, n);
                if (n * 8) as u16 != *w {
                    match v { Val::C(c) => Val::C(c & mask(*w)), Val::S(e) => { let x = self.cx.extract(e, 0, *w); self.mk(x) } v => v }
                } else { v }
            }
            Ty::Ptr => { let n = self.m.ptr_bytes; self.chk(o, off, n)?; self.rd_int(o, off as usize, n as usize) }
            Ty::Float(w) => { let n = *w as u64 / 8; self.chk(o, off, n)?; self.rd_int(o, off as usize, n as usize) }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let sz = size_align(self.m, e).0;
                let mut v = vec![];
                for i in 0..*n { v.push(self.rd(o, off + i * sz, e)?); }
                Val::A(Rc::new(v))
            }
            Ty::Struct(_, f) => {
                let mut v = vec![];
                for i in 0..f.len() { let (fo, ft) = field_off(self.m, t, i as u64); v.push(self.rd(o, off + fo, &ft)?); }
                Val::A(Rc::new(v))
            }
            _ => return err("load type"),
        })
    }
    fn wr(&mut self, o: &mut Obj, off: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = store_size(self.m, t);
                self.chk(o, off, n)?;
                self.wr_int(o, off as usize, n as usize, v);
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let sz = size_align(self.m, e).0;
                if let Val::A(x) = v { for i in 0..*n { self.wr(o, off + i * sz, e, &x[i as usize])?; } } else { return err("store agg"); }
            }
            Ty::Struct(_, f) => {
                if let Val::A(x) = v { for i in 0..f.len() { let (fo, ft) = field_off(self.m, t, i as u64); self.wr(o, off + fo, &ft, &x[i])?; } } else { return err("store agg"); }
            }
            _ => return err("store type"),
        }
        Ok(())
    }
    fn load(&mut self, s: &mut State, p: &Val, t: &Ty) -> R<Val> {
        if let Val::S(e) = p {
            let e = *e;
            if !s.conc.contains_key(&e) && !self.singletons(s, e) {
                if let Some(v) = self.table_load(s, e, t)? { return Ok(v); }
            }
        }
        let a = self.conc(s, p, 600)? as u64;
        if size_align(self.m, t).0 == 0 { return Ok(Val::A(Rc::new(vec![]))); }
        let (id, off) = self.split_addr(a);
        let o = self.obj(s, id)?;
        self.rd(&o, off, t)
    }
    /// load through a symbolic index into concrete memory: an if-then-else over the table
    fn table_load(&mut self, s: &mut State, p: E, t: &Ty) -> R<Option<Val>> {
        let w = match t { Ty::Int(w) if *w <= 64 => *w, _ => return Ok(None) };
        let n = store_size(self.m, t);
        let (lo, hi) = { let nd = &self.cx.n[p as usize]; (nd.lo as u64, nd.hi as u64) };
        let vals: Vec<u64> = if hi - lo <= 2048 { (lo..=hi).collect() } else {
            if self.cx.vars(p).len() != 1 { return Ok(None); }
            self.enumerate(s, p, 600)?.into_iter().map(|x| x as u64).collect()
        };
        let cur = self.eval(s, p) as u64;
        let (id, _) = self.split_addr(cur); // addresses outside this object must be infeasible (checked below)
        let o = self.obj(s, id)?;
        let base = self.base(id);
        let mut pairs: Vec<(u64, u128)> = vec![];
        let exact = hi - lo > 2048;
        for a in vals {
            let off = a.wrapping_sub(base);
            if off.checked_add(n).map_or(true, |e| e > o.b.len() as u64) {
                // possibly out of range: only if actually feasible
                if exact { return Ok(None); }
                let k = self.cx.cst(a as u128, self.m.ptr_bits());
                let q = self.cx.bin(Op::Eq, p, k);
                if self.feasible(s, q)?.is_some() { return Ok(None); }
                continue;
            }
            if let Some(sy) = &o.sym { if sy[off as usize..(off + n) as usize].iter().any(|x| *x != 0) { return Ok(None); } }
            match self.rd(&o, off, t)? { Val::C(c) => pairs.push((a, c)), _ => return Ok(None) }
        }
        // runs of equal content
        let mut runs: Vec<(u64, u128)> = vec![]; // (first address, value)
        for (a, v) in pairs { if runs.last().map_or(true, |r| r.1 != v) { runs.push((a, v)); } }
        let mut e = self.cx.cst(runs[runs.len() - 1].1, w);
        for i in (0..runs.len() - 1).rev() {
            let bound = self.cx.cst(runs[i + 1].0 as u128, self.m.ptr_bits());
            let c = self.cx.bin(Op::Ult, p, bound);
            let v = self.cx.cst(runs[i].1, w);
            e = self.cx.ite(c, v, e);
        }
        Ok(Some(self.mk(e)))
    }
    pub fn store(&mut self, s: &mut State, p: &Val, t: &Ty, v: &Val) -> R<()> {
        let a = self.conc(s, p, 300)? as u64;
        if size_align(self.m, t).0 == 0 { return Ok(()); }
        let (id, off) = self.split_addr(a);
        // take the object out to appease the borrow checker
        { let _ = self.obj_mut(s, id)?; }
        let slot = s.mem.slot(id - 1);
        let mut rc = slot.take().unwrap();
        let r = self.wr(Rc::make_mut(&mut rc), off, t, v);
        *s.mem.slot(id - 1) = Some(rc);
        r
    }
    /// A number of bytes to allocate. More than MAX_ALLOC is a violation: no
    /// value of the few bytes of data explored here needs as much.
    fn amount(&mut self, s: &mut State, v: &Val) -> R<u64> {
        const MAX_ALLOC: u128 = 1 << 26;
        let viol = |stack| Stop::Viol(Viol { kind: "memory".into(), id: 0, msg: "allocation of 64 MiB or more".into(), inputs: vec![], stack });
        if let Val::S(e) = v {
            if !s.conc.contains_key(e) {
                let m = self.cx.cst(MAX_ALLOC, self.cx.w(*e));
                let small = self.cx.bin(Op::Ult, *e, m);
                let large = self.cx.not(small);
                if let Some(m) = self.feasible(s, large)? {
                    self.add(s, large, m);
                    return Err(viol(self.stack(s)));
                }
            }
        }
        if let Val::S(e) = v {
            if !s.conc.contains_key(e) && self.enumerate(s, *e, 64).is_err() {
                // of many sizes, the largest; nothing reads past what is asked for
                let (mut lo, mut hi) = (0, MAX_ALLOC - 1);
                while lo < hi {
                    let mid = (lo + hi + 1) / 2;
                    let m = self.cx.cst(mid, self.cx.w(*e));
                    let less = self.cx.bin(Op::Ult, *e, m);
                    let more = self.cx.not(less);
                    if self.feasible(s, more)?.is_some() { lo = mid } else { hi = mid - 1 }
                }
                return Ok(lo as u64);
            }
        }
        let n = self.conc(s, v, 64)?;
        if n >= MAX_ALLOC { return Err(viol(self.stack(s))); }
        Ok(n as u64)
    }
    fn alloc(&mut self, s: &mut State, n: u64) -> R<u64> {
        let big = self.m.ptr_bytes == 4 && n >> 16 != 0;
        if n > 1 << 28 || big && n >> 20 != 0 { return err(format!("allocation of {} bytes is outside the explored bounds", n)); }
        let id = if big { s.mem.alloc_big(n as usize) } else { s.mem.alloc(n as usize, true) };
        self.in_range(id, big)?;
        Ok(self.base(id + 1))
    }
    fn in_range(&self, id: u32, big: bool) -> R<()> {
        if self.m.ptr_bytes == 4 && (big && id + 1 >= BIG + 255 || !big && id + 1 >= BIG) { return err("more objects than a 32-bit address space numbers"); }
        Ok(())
    }
    fn memcpy(&mut self, s: &mut State, d: u64, sr: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.split_addr(sr);
        let (di, dof) = self.split_addr(d);
        let src = self.obj(s, si)?;
        self.chk(&src, so, n)?;
        let (so, n, dof) = (so as usize, n as usize, dof as usize);
        let bytes: Vec<u8> = src.b[so..so + n].to_vec();
        let sym: Option<Vec<u64>> = match &src.sym { Some(x) if x[so..so + n].iter().any(|y| *y != 0) => Some(x[so..so + n].to_vec()), _ => None };
        drop(src);
        let dst = self.obj_mut(s, di)?;
        if dof + n > dst.b.len() { return err(format!("out-of-bounds copy: offset {} size {} in object of {}", dof, n, dst.b.len())); }
        dst.b[dof..dof + n].copy_from_slice(&bytes);
        let len = dst.b.len();
        match sym {
            Some(x) => { let sy = dst.sym.get_or_insert_with(|| Box::new(vec![0; len])); sy[dof..dof + n].copy_from_slice(&x); }
            None => if let Some(sy) = &mut dst.sym { for x in &mut sy[dof..dof + n] { *x = 0; } }
        }
        Ok(())
    }
    fn byte_at(&mut self, o: &Obj, off: u64) -> R<Val> { self.chk(o, off, 1)?; Ok(self.rd_int(o, off as usize, 1)) }

    // ---- vars ----
    fn fresh(&mut self, s: &mut State, dom: [u64; 4], init: u8) -> E {
        let id = s.dom.len() as u32;
        s.dom.push(dom);
        s.in_multi.push(false);
        let (m, mid) = self.new_model(s, &[(id, init)]);
        s.model = m;
        s.model_id = mid;
        self.cx.var(id)
    }
    fn stack(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().take(14).map(|f| f.f.name.to_string()).collect()
    }
    fn input_bytes(&self, s: &State, m: &[u8]) -> Vec<u8> { s.inputs.iter().map(|v| m.get(*v as usize).copied().unwrap_or(0)).collect() }

    // ---- scalar semantics ----
    fn bin(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::URem => Op::URem, BinOp::SDiv => Op::SDiv, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *y == 0 && matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) { return err("division by zero"); }
            return Ok(Val::C(eval_op(o, w, *x, *y, w)));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = vec![];
            for (p, q) in x.iter().zip(y.iter()) { v.push(self.bin(op, w, p, q)?); }
            return Ok(Val::A(Rc::new(v)));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.cx.bin(o, x, y);
        Ok(self.mk(e))
    }
    fn icmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        let cx = &mut self.cx;
        match p {
            Pred::Eq => cx.bin(Op::Eq, x, y),
            Pred::Ne => { let e = cx.bin(Op::Eq, x, y); cx.not(e) }
            Pred::Ult => cx.bin(Op::Ult, x, y), Pred::Ugt => cx.bin(Op::Ult, y, x),
            Pred::Uge => { let e = cx.bin(Op::Ult, x, y); cx.not(e) }
            Pred::Ule => { let e = cx.bin(Op::Ult, y, x); cx.not(e) }
            Pred::Slt => cx.bin(Op::Slt, x, y), Pred::Sgt => cx.bin(Op::Slt, y, x),
            Pred::Sge => { let e = cx.bin(Op::Slt, x, y); cx.not(e) }
            Pred::Sle => { let e = cx.bin(Op::Slt, y, x); cx.not(e) }
        }
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy };
            return Ok(Val::C(r as u128));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = vec![];
            for (p1, q) in x.iter().zip(y.iter()) { v.push(self.icmp(p, w, p1, q)?); }
            return Ok(Val::A(Rc::new(v)));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.icmp_e(p, x, y);
        Ok(self.mk(e))
    }
    fn tw(&self, t: &Ty) -> u16 { match t { Ty::Int(w) | Ty::Float(w) => *w, Ty::Ptr => self.m.ptr_bits(), _ => 0 } }
    fn cast(&mut self, c: CastOp, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if c == CastOp::Same { return Ok(v.clone()); }
        if c == CastOp::Bitcast {
            match (from, to) {
                (Ty::Vec(n, fe), Ty::Int(_)) => {
                    let w = self.tw(fe);
                    let x = match v { Val::A(x) => x.clone(), _ => return err("bitcast") };
                    let mut acc = self.ex(&x[0], w);
                    for i in 1..*n as usize { let h = self.ex(&x[i], w); acc = self.cx.concat(h, acc); }
                    return Ok(self.mk(acc));
                }
                (Ty::Int(w), Ty::Vec(n, te)) => {
                    let ew = self.tw(te);
                    let e = self.ex(v, *w);
                    let mut o = vec![];
                    for i in 0..*n { let x = self.cx.extract(e, i as u16 * ew, ew); o.push(self.mk(x)); }
                    return Ok(Val::A(Rc::new(o)));
                }
                (Ty::Vec(n, fe), Ty::Vec(k, te)) => {
                    let (fw, ew) = (self.tw(fe), self.tw(te));
                    let x = match v { Val::A(x) => x.clone(), _ => return err("bitcast") };
                    let mut o = vec![];
                    if fw == ew { return Ok(v.clone()); }
                    for i in 0..*k as usize {
                        let bit = i as u16 * ew;
                        if ew < fw { let e = self.ex(&x[(bit / fw) as usize], fw); let y = self.cx.extract(e, bit % fw, ew); o.push(self.mk(y)); }
                        else {
                            let r = (ew / fw) as usize;
                            let mut acc = self.ex(&x[i * r], fw);
                            for j in 1..r { let h = self.ex(&x[i * r + j], fw); acc = self.cx.concat(h, acc); }
                            o.push(self.mk(acc));
                        }
                    }
                    let _ = n;
                    return Ok(Val::A(Rc::new(o)));
                }
                _ => return Ok(v.clone()),
            }
        }
        if let (Val::A(x), Ty::Vec(_, fe), Ty::Vec(_, te)) = (v, from, to) {
            let mut o = vec![];
            for y in x.iter() { o.push(self.cast(c, fe, te, y)?); }
            return Ok(Val::A(Rc::new(o)));
        }
        let (fw, w) = (self.tw(from), self.tw(to));
        match v {
            Val::C(k) => Ok(Val::C(match c { CastOp::Zext => *k, CastOp::Sext => (sext(*k, fw) as u128) & mask(w), _ => *k & mask(w) })),
            Val::S(e) => { let x = match c { CastOp::Zext => self.cx.zext(*e, w), CastOp::Sext => self.cx.sext(*e, w), _ => self.cx.extract(*e, 0, w) }; Ok(self.mk(x)) }
            _ => err("cast agg"),
        }
    }
    fn select(&mut self, s: &mut State, c: &Val, a: &Val, b: &Val, t: &Ty) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                match (a, b) {
                    (Val::A(x), Val::A(y)) => {
                        let mut o = vec![];
                        for i in 0..x.len() {
                            let et = match t { Ty::Struct(_, f) => f[i].clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => return err("select") };
                            o.push(self.select(s, c, &x[i], &y[i], &et)?);
                        }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => {
                        let w = self.tw(t);
                        let x = self.ex(a, w);
                        let y = self.ex(b, w);
                        let r = self.cx.ite(*e, x, y);
                        Ok(self.mk(r))
                    }
                }
            }
            Val::A(cs) => {
                let et = match t { Ty::Vec(_, e) => (**e).clone(), _ => return err("select") };
                match (a, b) {
                    (Val::A(x), Val::A(y)) => {
                        let mut o = vec![];
                        for i in 0..x.len() { o.push(self.select(s, &cs[i].clone(), &x[i], &y[i], &et)?); }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => err("select vec"),
                }
            }
        }
    }
    fn bits_chain(&mut self, e: E, from_top: bool) -> E {
        let w = self.cx.w(e);
        let mut r = self.cx.cst(w as u128, w);
        for k in (0..w).rev() {
            let bit = if from_top { self.cx.extract(e, w - 1 - k, 1) } else { self.cx.extract(e, k, 1) };
            let kk = self.cx.cst(k as u128, w);
            r = self.cx.ite(bit, kk, r);
        }
        r
    }
    fn intrinsic(&mut self, name: &str, c: &CallI, a: &[Val]) -> R<Val> {
        let w = c.argtys.get(0).map_or(0, |t| match t { Ty::Vec(_, e) => self.tw(e), t => self.tw(t) });
        let base = name;
        if let Ty::Vec(..) = c.ret {
            // lane-wise
            if let Some(Ty::Vec(n, e)) = c.argtys.get(0) {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let la: Vec<Val> = a.iter().map(|v| match v { Val::A(x) => x[i].clone(), v => v.clone() }).collect();
                    let lc = CallI { callee: Callee::Named("".into()), args: vec![], ret: (**e).clone(), argtys: c.argtys.iter().map(|t| match t { Ty::Vec(_, e) => (**e).clone(), t => t.clone() }).collect(), normal: None };
                    o.push(self.intrinsic(name, &lc, &la)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        let st = |n: &str| base.starts_with(n);
        if st("llvm.vector.reduce.") {
            let x = match &a[0] { Val::A(x) => x.clone(), _ => return err("reduce") };
            let k = if st("llvm.vector.reduce.or") { BinOp::Or } else if st("llvm.vector.reduce.and") { BinOp::And } else if st("llvm.vector.reduce.xor") { BinOp::Xor } else if st("llvm.vector.reduce.add") { BinOp::Add } else { return err(format!("unsupported {}", name)) };
            let mut acc = x[0].clone();
            for y in x[1..].iter() { acc = self.bin(k, w, &acc, y)?; }
            return Ok(acc);
        }
        if st("llvm.umin.") || st("llvm.umax.") || st("llvm.smin.") || st("llvm.smax.") {
            let p = if st("llvm.umin.") { Pred::Ult } else if st("llvm.umax.") { Pred::Ugt } else if st("llvm.smin.") { Pred::Slt } else { Pred::Sgt };
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let c = self.icmp_e(p, x, y);
            let r = self.cx.ite(c, x, y);
            return Ok(self.mk(r));
        }
        let (x, y) = if a.len() >= 1 { let x = self.ex(&a[0], w); let y = if a.len() >= 2 && c.argtys[1] == c.argtys[0] { self.ex(&a[1], w) } else { x }; (x, y) } else { (0, 0) };
        if st("llvm.usub.sat") { let c = self.cx.bin(Op::Ult, x, y); let d = self.cx.bin(Op::Sub, x, y); let z = self.cx.cst(0, w); let r = self.cx.ite(c, z, d); return Ok(self.mk(r)); }
        if st("llvm.uadd.sat") { let d = self.cx.bin(Op::Add, x, y); let c = self.cx.bin(Op::Ult, d, x); let z = self.cx.cst(mask(w), w); let r = self.cx.ite(c, z, d); return Ok(self.mk(r)); }
        if name.contains(".with.overflow.") {
            let signed = st("llvm.s");
            let (res, ov);
            if name.contains("add") {
                res = self.cx.bin(Op::Add, x, y);
                if !signed { ov = self.cx.bin(Op::Ult, res, x); }
                else {
                    let (sx, sy, sr) = (self.cx.extract(x, w - 1, 1), self.cx.extract(y, w - 1, 1), self.cx.extract(res, w - 1, 1));
                    let same = self.cx.bin(Op::Eq, sx, sy); let d = self.cx.bin(Op::Xor, sx, sr);
                    ov = self.cx.and1(same, d);
                }
            } else if name.contains("sub") {
                res = self.cx.bin(Op::Sub, x, y);
                if !signed { ov = self.cx.bin(Op::Ult, x, y); }
                else {
                    let (sx, sy, sr) = (self.cx.extract(x, w - 1, 1), self.cx.extract(y, w - 1, 1), self.cx.extract(res, w - 1, 1));
                    let diff = self.cx.bin(Op::Xor, sx, sy); let d = self.cx.bin(Op::Xor, sx, sr);
                    ov = self.cx.and1(diff, d);
                }
            } else {
                res = self.cx.bin(Op::Mul, x, y);
                if w <= 64 {
                    let (p, q) = if signed { (self.cx.sext(x, 2 * w), self.cx.sext(y, 2 * w)) } else { (self.cx.zext(x, 2 * w), self.cx.zext(y, 2 * w)) };
                    let full = self.cx.bin(Op::Mul, p, q);
                    if signed { let t = self.cx.sext(res, 2 * w); let e = self.cx.bin(Op::Eq, full, t); ov = self.cx.not(e); }
                    else { let h = self.cx.extract(full, w, w); let z = self.cx.cst(0, w); let e = self.cx.bin(Op::Eq, h, z); ov = self.cx.not(e); }
                } else if !signed {
                    // a*b overflows iff b != 0 and a > MAX / b
                    let (x, y) = if self.cx.as_const(x).is_some() { (y, x) } else { (x, y) };
                    let mx = self.cx.cst(mask(w), w);
                    let z = self.cx.cst(0, w);
                    let q = self.cx.bin(Op::UDiv, mx, y);
                    let g = self.cx.bin(Op::Ult, q, x);
                    let nz = self.cx.bin(Op::Eq, y, z);
                    let nz = self.cx.not(nz);
                    ov = self.cx.and1(nz, g);
                } else { return err("smul.with.overflow.i128"); }
            }
            let (r, o) = (self.mk(res), self.mk(ov));
            return Ok(Val::A(Rc::new(vec![r, o])));
        }
        if st("llvm.fshl.") || st("llvm.fshr.") {
            let k = match &a[2] { Val::C(c) => (*c % w as u128) as u16, _ => return err("symbolic funnel shift") };
            if w > 64 && k != 0 {
                // concat would exceed 128 bits
                let (hi, lo) = if st("llvm.fshl.") { (self.cx.extract(x, 0, w - k), self.cx.extract(y, w - k, k)) } else { (self.cx.extract(x, 0, k), self.cx.extract(y, k, w - k)) };
                let r = self.cx.concat(hi, lo);
                return Ok(self.mk(r));
            }
            let r = if k == 0 { if st("llvm.fshl.") { x } else { y } } else {
                let t = self.cx.concat(x, y);
                if st("llvm.fshl.") { self.cx.extract(t, w - k, w) } else { self.cx.extract(t, k, w) }
            };
            return Ok(self.mk(r));
        }
        if st("llvm.ctlz.") { let r = self.bits_chain(x, true); return Ok(self.mk(r)); }
        if st("llvm.cttz.") { let r = self.bits_chain(x, false); return Ok(self.mk(r)); }
        if st("llvm.ctpop.") {
            let mut r = self.cx.cst(0, w);
            for i in 0..w { let b = self.cx.extract(x, i, 1); let b = self.cx.zext(b, w); r = self.cx.bin(Op::Add, r, b); }
            return Ok(self.mk(r));
        }
        if st("llvm.bswap.") || st("llvm.bitreverse.") {
            let u = if st("llvm.bswap.") { 8 } else { 1 };
            let mut acc = self.cx.extract(x, 0, u);
            for i in 1..w / u { let l = self.cx.extract(x, i * u, u); acc = self.cx.concat(acc, l); }
            return Ok(self.mk(acc));
        }
        if st("llvm.abs.") {
            let sgn = self.cx.extract(x, w - 1, 1);
            let z = self.cx.cst(0, w);
            let n = self.cx.bin(Op::Sub, z, x);
            let r = self.cx.ite(sgn, n, x);
            return Ok(self.mk(r));
        }
        if st("llvm.ucmp.") || st("llvm.scmp.") {
            let rw = self.tw(&c.ret);
            let p = if st("llvm.ucmp.") { Op::Ult } else { Op::Slt };
            let lt = self.cx.bin(p, x, y);
            let eq = self.cx.bin(Op::Eq, x, y);
            let (m1, z, one) = (self.cx.cst(mask(rw), rw), self.cx.cst(0, rw), self.cx.cst(1, rw));
            let t = self.cx.ite(eq, z, one);
            let r = self.cx.ite(lt, m1, t);
            return Ok(self.mk(r));
        }
        if st("llvm.ptrmask") { return self.bin(BinOp::And, w, &a[0], &a[1]); }
        err(format!("unsupported intrinsic {}", name))
    }

    // ---- builtins (returns None when not a builtin) ----
    fn builtin(&mut self, s: &mut State, name: &str, c: &CallI, a: &[Val]) -> R<Option<Val>> {
        let some = |v: u128| Ok(Some(Val::C(v)));
        if let Some(r) = name.strip_prefix("llvm.") {
            if r.starts_with("lifetime.") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("dbg.") || r.starts_with("x86.sse2.pause") || r.starts_with("prefetch") || r.starts_with("donothing") || r.starts_with("invariant.") { return Ok(Some(Val::ZERO)); }
            if r.starts_with("memcpy.") || r.starts_with("memmove.") {
                let n = self.conc(s, &a[2], 600)? as u64;
                let d = self.conc(s, &a[0], 300)? as u64;
                let p = self.conc(s, &a[1], 300)? as u64;
                self.memcpy(s, d, p, n)?;
                return some(0);
            }
            if r.starts_with("memset.") {
                let n = self.conc(s, &a[2], 600)? as u64;
                let d = self.conc(s, &a[0], 300)? as u64;
                self.memset(s, d, &a[1], n)?;
                return some(0);
            }
            if r.starts_with("is.constant") { return some(0); }
            if r.starts_with("expect.") || r.starts_with("threadlocal.address") || r.starts_with("launder.") || r.starts_with("strip.") { return Ok(Some(a[0].clone())); }
            if r == "trap" || r == "debugtrap" { return Err(Stop::Viol(Viol { kind: "panic".into(), id: 0, msg: "llvm.trap".into(), inputs: vec![], stack: self.stack(s) })); }
            return Ok(Some(self.intrinsic(name, c, a)?));
        }
        match name {
            "memcpy" | "memmove" => { let n = self.conc(s, &a[2], 600)? as u64; let d = self.conc(s, &a[0], 300)? as u64; let p = self.conc(s, &a[1], 300)? as u64; self.memcpy(s, d, p, n)?; Ok(Some(a[0].clone())) }
            "memset" => {
                let n = self.conc(s, &a[2], 600)? as u64; let d = self.conc(s, &a[0], 300)? as u64;
                let v = match &a[1] { Val::C(c) => Val::C(c & 255), Val::S(e) => { let x = self.cx.extract(*e, 0, 8); self.mk(x) } v => v.clone() };
                self.memset(s, d, &v, n)?;
                Ok(Some(a[0].clone()))
            }
            "bcmp" | "memcmp" => {
                let n = self.conc(s, &a[2], 600)? as u64;
                if n == 0 { return some(0); }
                let p = self.conc(s, &a[0], 300)? as u64;
                let q = self.conc(s, &a[1], 300)? as u64;
                let (pi, po) = self.split_addr(p);
                let (qi, qo) = self.split_addr(q);
                let po_ = self.obj(s, pi)?;
                let qo_ = self.obj(s, qi)?;
                self.chk(&po_, po, n)?;
                self.chk(&qo_, qo, n)?;
                if name == "bcmp" {
                    // quick concrete mismatch
                    let mut acc = self.cx.tru();
                    for i in 0..n {
                        let x = self.byte_at(&po_, po + i)?; let y = self.byte_at(&qo_, qo + i)?;
                        if let (Val::C(x), Val::C(y)) = (&x, &y) { if x != y { return some(1); } else { continue; } }
                        let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                        let e = self.cx.bin(Op::Eq, x, y);
                        acc = self.cx.and1(acc, e);
                    }
                    let z = self.cx.cst(0, 32); let o = self.cx.cst(1, 32);
                    let r = self.cx.ite(acc, z, o);
                    return Ok(Some(self.mk(r)));
                }
                let mut r = self.cx.cst(0, 32);
                let one = self.cx.cst(1, 32); let m1 = self.cx.cst(0xffff_ffff, 32);
                // stop at the first surely-different concrete byte
                let mut last = n;
                for i in 0..n {
                    let x = self.byte_at(&po_, po + i)?; let y = self.byte_at(&qo_, qo + i)?;
                    if let (Val::C(x), Val::C(y)) = (&x, &y) { if x != y { last = i + 1; break; } }
                }
                for i in (0..last).rev() {
                    let x = self.byte_at(&po_, po + i)?; let y = self.byte_at(&qo_, qo + i)?;
                    let (x, y) = (self.ex(&x, 8), self.ex(&y, 8));
                    let eq = self.cx.bin(Op::Eq, x, y);
                    let lt = self.cx.bin(Op::Ult, x, y);
                    let d = self.cx.ite(lt, m1, one);
                    r = self.cx.ite(eq, r, d);
                }
                Ok(Some(self.mk(r)))
            }
            "strlen" => {
                let p = self.conc(s, &a[0], 8)? as u64;
                let (pi, po) = self.split_addr(p);
                let o = self.obj(s, pi)?;
                let mut i = 0;
                loop { match self.byte_at(&o, po + i)? { Val::C(0) => break, Val::C(_) => i += 1, _ => return err("symbolic strlen") } }
                some(i as u128)
            }
            "malloc" | "sym_malloc" => { let n = self.amount(s, &a[0])?; some(self.alloc(s, n)? as u128) }
            "calloc" | "sym_calloc" => { let n = self.amount(s, &a[0])?; let k = self.amount(s, &a[1])?; some(self.alloc(s, n * k)? as u128) }
            "posix_memalign" => {
                let n = self.amount(s, &a[2])?;
                let p = self.alloc(s, n)?;
                self.store(s, &a[0], &Ty::Ptr, &Val::C(p as u128))?;
                some(0)
            }
            "realloc" | "sym_realloc" => {
                let n = self.amount(s, &a[1])?;
                let p = self.conc(s, &a[0], 8)? as u64;
                let (pi, po) = self.split_addr(p);
                if p == 0 { return some(self.alloc(s, n)? as u128); }
                if po != 0 { return err("realloc of interior pointer"); }
                if n > 1 << 28 { return err("reallocation outside the explored bounds"); }
                if self.m.ptr_bytes == 4 && (pi >= BIG) != (n >> 16 != 0) {
                    let old = self.obj(s, pi)?.b.len() as u64;
                    let q = self.alloc(s, n)?;
                    self.memcpy(s, q, p, old.min(n))?;
                    s.mem.release(pi - 1);
                    return some(q as u128);
                }
                if pi >= BIG && self.m.ptr_bytes == 4 && n >> 20 != 0 { return err("reallocation outside the explored bounds"); }
                let o = self.obj_mut(s, pi)?;
                o.b.resize(n as usize, 0);
                if let Some(sy) = &mut o.sym { sy.resize(n as usize, 0); }
                some(p as u128)
            }
            "free" | "sym_free" => {
                let p = self.conc(s, &a[0], 8)? as u64;
                if p == 0 { return some(0); }
                let (pi, po) = self.split_addr(p);
                let i = pi.wrapping_sub(1);
                if po != 0 || s.mem.get(i).map_or(true, |o| !o.heap) { return err("invalid free"); }
                s.mem.release(i);
                some(0)
            }
            "abort" | "exit" | "_exit" => Err(Stop::Viol(Viol { kind: "panic".into(), id: 0, msg: name.into(), inputs: vec![], stack: self.stack(s) })),
            "getenv" => some(0),
            "__cxa_thread_atexit_impl" | "pthread_setspecific" => some(0),
            "sym_bytes" => {
                let p = self.conc(s, &a[0], 8)? as u64;
                let n = self.conc(s, &a[1], 64)? as u64;
                for i in 0..n {
                    let e = self.fresh(s, FULL, 0);
                    let id = s.dom.len() as u32 - 1;
                    s.inputs.push(id);
                    self.store(s, &Val::C((p + i) as u128), &Ty::Int(8), &Val::S(e))?;
                }
                some(0)
            }
            "sym_assume" => {
                let c = match &a[0] { Val::C(c) => { if c & 1 == 1 { return some(0); } return Err(Stop::End("assume".into())); } Val::S(e) => { let w = self.cx.w(*e); if w == 1 { *e } else { self.cx.extract(*e, 0, 1) } } _ => return err("assume") };
                match self.feasible(s, c)? {
                    None => Err(Stop::End("assume".into())),
                    Some(m) => { self.add(s, c, m); some(0) }
                }
            }
            "sym_assert" => {
                self.stats.asserts_checked += 1;
                s.asserts += 1;
                let id = self.conc(s, &a[1], 8)? as u64;
                let c = match &a[0] {
                    Val::C(c) => {
                        if c & 1 == 1 { return some(0); }
                        return Err(Stop::Viol(Viol { kind: "assert".into(), id, msg: format!("assertion {} is false", id), inputs: vec![], stack: self.stack(s) }));
                    }
                    Val::S(e) => { let w = self.cx.w(*e); if w == 1 { *e } else { self.cx.extract(*e, 0, 1) } }
                    _ => return err("assert"),
                };
                self.stats.asserts_solver += 1;
                let n = self.cx.not(c);
                if let Some((m, _)) = self.feasible(s, n)? {
                    let inputs = self.input_bytes(s, &m);
                    self.viols.push(Viol { kind: "assert".into(), id, msg: format!("assertion {} can be false", id), inputs, stack: self.stack(s) });
                    match self.feasible(s, c)? { None => return Err(Stop::End("violation".into())), Some(m) => self.add(s, c, m) }
                } else {
                    self.add_c(s, c);
                }
                some(0)
            }
            "sym_cover" => {
                let id = self.conc(s, &a[0], 8)? as u32;
                s.covers.insert(id);
                some(0)
            }
            "sym_note" => {
                let t = self.conc(s, &a[0], 8)? as u32;
                s.notes.push((t, a[1].clone()));
                some(0)
            }
            "sym_digits" => {
                let n = self.conc(s, &a[2], 64)? as u64;
                let p = self.conc(s, &a[1], 8)? as u128;
                let v = self.load(s, &a[0], &Ty::Int(128))?;
                let mut d = vec![];
                for i in 0..n { d.push(self.load(s, &Val::C(p + i as u128), &Ty::Int(8))?); }
                let d = Rc::new(d);
                if let Val::S(e) = v {
                    // after a copy by halves
                    let (hi, lo) = (self.cx.extract(e, 64, 64), self.cx.extract(e, 0, 64));
                    let h = self.cx.concat(hi, lo);
                    self.digits.insert(h, d.clone());
                    for w in [8, 16, 32, 64, 128] {
                        let x = self.cx.extract(e, 0, w);
                        if w < 128 {
                            // the number must fit
                            let (hi, z) = (self.cx.extract(e, w, 128 - w), self.cx.cst(0, 128 - w));
                            let q = self.cx.bin(Op::Eq, hi, z);
                            let q = self.cx.not(q);
                            if self.feasible(s, q)?.is_some() { continue; }
                        }
                        if self.cx.as_const(x).is_some() { continue; }
                        for to in [8, 16, 32, 64, 128] {
                            if to < w { continue; }
                            let y = self.cx.zext(x, to);
                            self.digits.insert(y, d.clone());
                        }
                    }
                }
                some(0)
            }
            "sym_concretize" => { let k = self.conc(s, &a[0], 4096)?; some(k) }
            "sym_param" => { let i = self.conc(s, &a[0], 8)? as usize; some(*self.params.get(i).unwrap_or(&0) as u128) }
            "sym_debug" => { eprintln!("[sym_debug] {:?}", a.iter().map(|v| match v { Val::S(e) => self.cx.show(*e, 6), v => format!("{:?}", v) }).collect::<Vec<_>>()); some(0) }
            _ => Ok(None),
        }
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (id, off) = self.split_addr(d);
        match v {
            Val::C(c) => {
                let o = self.obj_mut(s, id)?;
                if off + n > o.b.len() as u64 { return err("out-of-bounds memset"); }
                let r = off as usize..(off + n) as usize;
                for x in &mut o.b[r.clone()] { *x = *c as u8; }
                if let Some(sy) = &mut o.sym { for x in &mut sy[r] { *x = 0; } }
            }
            v => for i in 0..n { self.store(s, &Val::C((d + i) as u128), &Ty::Int(8), v)?; }
        }
        Ok(())
    }
    fn is_builtin(&mut self, id: u32) -> bool {
        let b = self.builtins[id as usize];
        if b != 0 { return b == 2; }
        let d = &self.m.defs[id as usize];
        let n = &*d.name;
        let r = n.starts_with("llvm.") || !d.defined || matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen");
        self.builtins[id as usize] = if r { 2 } else { 1 };
        r
    }
    fn push_frame(&mut self, s: &mut State, id: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> R<()> {
        let f = self.m.func(id).map_err(Stop::Err)?;
        self.executed[id as usize] = true;
        let mut regs = args;
        regs.truncate(f.nparams as usize);
        regs.resize(f.nregs as usize, Val::ZERO);
        s.frames.push(Frame { f, regs, blk: 0, ip: 0, dst, normal, allocas: vec![] });
        if s.frames.len() > self.stats.maxdepth { self.stats.maxdepth = s.frames.len(); }
        Ok(())
    }
    #[inline]
    fn get(s: &State, o: &Opd) -> Val { match o { Opd::R(r) => s.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: [Val; 8] = [Val::ZERO, Val::ZERO, Val::ZERO, Val::ZERO, Val::ZERO, Val::ZERO, Val::ZERO, Val::ZERO];
            let mut more: Vec<Val> = vec![];
            for (i, (_, inc)) in b.phis.iter().enumerate() {
                let o = inc.iter().find(|(l, _)| *l == from).map(|(_, o)| o).expect("phi edge");
                let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                if i < 8 { vals[i] = v } else { more.push(v) }
            }
            for (i, (d, _)) in b.phis.iter().enumerate() {
                fr.regs[*d as usize] = if i < 8 { std::mem::replace(&mut vals[i], Val::ZERO) } else { more[i - 8].clone() };
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    fn ret(&mut self, s: &mut State, v: Val) -> bool {
        let fr = s.frames.pop().unwrap();
        for a in fr.allocas { s.mem.release(a); }
        match s.frames.last_mut() {
            None => true,
            Some(c) => {
                if fr.dst != NODST { c.regs[fr.dst as usize] = v; }
                match fr.normal { Some(b) => self.jump(s, b), None => c.ip += 1 }
                false
            }
        }
    }
    /// run until the state ends or forks
    fn run(&mut self, s: &mut State) -> R<()> {
        let mut f = s.frames.last().unwrap().f.clone();
        loop {
            s.steps += 1;
            if s.steps & 0x3ffff == 0 && self.t0.elapsed().as_secs_f64() > self.lim.max_time { return err("time limit"); }
            if s.steps > self.lim.max_steps {
                return Err(Stop::Viol(Viol { kind: "hang".into(), id: 0, msg: format!("no end after {} instructions", self.lim.max_steps), inputs: vec![], stack: self.stack(s) }));
            }
            let (blk, ip) = { let fr = s.frames.last().unwrap(); if !Rc::ptr_eq(&fr.f, &f) { f = fr.f.clone(); } (fr.blk as usize, fr.ip as usize) };
            let ins = &f.blocks[blk].ins[ip];
            let v = match &ins.i {
                I::Bin(op, w, _, a, b) => { let (a, b) = (Self::get(s, a), Self::get(s, b)); if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) { self.div(s, *op, *w, &a, &b)? } else { self.bin(*op, *w, &a, &b)? } }
                I::Icmp(p, w, _, a, b) => { let (a, b) = (Self::get(s, a), Self::get(s, b)); self.icmp(*p, *w, &a, &b)? }
                I::Cast(c, t1, t2, a) => { let a = Self::get(s, a); self.cast(*c, t1, t2, &a)? }
                I::Select(c, a, b, t, _) => { let (c, a, b) = (Self::get(s, c), Self::get(s, a), Self::get(s, b)); self.select(s, &c, &a, &b, t)? }
                I::Gep(b, k, dynv) => {
                    let pb = self.m.ptr_bits();
                    let mut v = match Self::get(s, b) {
                        Val::C(c) => Val::C((c.wrapping_add(*k as u128)) & mask(pb)),
                        Val::S(e) => { let kc = self.cx.cst(*k as u128, pb); let x = self.cx.bin(Op::Add, e, kc); self.mk(x) }
                        _ => return err("gep on aggregate"),
                    };
                    for (o, iw, sc) in dynv {
                        match (Self::get(s, o), &v) {
                            (Val::C(i), Val::C(c)) => { let i = sext(i, *iw) as u128; v = Val::C(c.wrapping_add(i.wrapping_mul(*sc as u128)) & mask(pb)); }
                            (iv, _) => {
                                let i = self.ex(&iv, *iw);
                                let i = if *iw < pb { self.cx.sext(i, pb) } else { self.cx.extract(i, 0, pb) };
                                let sck = self.cx.cst(*sc as u128, pb);
                                let t = self.cx.bin(Op::Mul, i, sck);
                                let b = self.ex(&v, pb);
                                let x = self.cx.bin(Op::Add, b, t);
                                v = self.mk(x);
                            }
                        }
                    }
                    v
                }
                I::Load(t, p) => { let p = Self::get(s, p); self.load(s, &p, t)? }
                I::Store(t, v, p) => { let (v, p) = (Self::get(s, v), Self::get(s, p)); self.store(s, &p, t, &v)?; Val::ZERO }
                I::Alloca(n) => {
                    let id = s.mem.alloc(*n as usize, false);
                    self.in_range(id, false)?;
                    s.frames.last_mut().unwrap().allocas.push(id);
                    Val::C(self.base(id + 1) as u128)
                }
                I::Extract(v, ix) => { let mut v = Self::get(s, v); for i in ix { v = match v { Val::A(x) => x[*i as usize].clone(), _ => return err("extractvalue") } } v }
                I::Insert(v, e, ix) => { let (v, e) = (Self::get(s, v), Self::get(s, e)); ins_path(v, e, ix) }
                I::ExtElem(v, i) => {
                    let (v, i) = (Self::get(s, v), Self::get(s, i));
                    let i = self.conc(s, &i, 64)? as usize;
                    match v { Val::A(x) => x[i].clone(), _ => return err("extractelement") }
                }
                I::InsElem(v, e, i, n) => {
                    let (v, e, i) = (Self::get(s, v), Self::get(s, e), Self::get(s, i));
                    let i = self.conc(s, &i, 64)? as usize;
                    let mut x = match v { Val::A(x) => (*x).clone(), _ => vec![Val::ZERO; *n as usize] };
                    x[i] = e;
                    Val::A(Rc::new(x))
                }
                I::Shuffle(a, b, m, n) => {
                    let (a, b) = (Self::get(s, a), Self::get(s, b));
                    let (x, y) = match (&a, &b) { (Val::A(x), Val::A(y)) => (x, y), _ => return err("shuffle") };
                    Val::A(Rc::new(m.iter().map(|i| if (*i as u64) < *n { x[*i as usize].clone() } else { y[*i as usize - *n as usize].clone() }).collect()))
                }
                I::AtomicRmw(o, w, p, v) => {
                    let (p, v) = (Self::get(s, p), Self::get(s, v));
                    let p = Val::C(self.conc(s, &p, 8)?);
                    let t = Ty::Int(*w);
                    let old = self.load(s, &p, &t)?;
                    let new = match o { 0 => v, 1 => self.bin(BinOp::Add, *w, &old, &v)?, 2 => self.bin(BinOp::Sub, *w, &old, &v)?, 3 => self.bin(BinOp::And, *w, &old, &v)?, 4 => self.bin(BinOp::Or, *w, &old, &v)?, _ => self.bin(BinOp::Xor, *w, &old, &v)? };
                    self.store(s, &p, &t, &new)?;
                    old
                }
                I::CmpXchg(w, p, a, b) => {
                    let (p, a, b) = (Self::get(s, p), Self::get(s, a), Self::get(s, b));
                    let p = Val::C(self.conc(s, &p, 8)?);
                    let t = Ty::Int(*w);
                    let old = self.load(s, &p, &t)?;
                    match (&old, &a) {
                        (Val::C(x), Val::C(y)) => { if x == y { self.store(s, &p, &t, &b)?; } Val::A(Rc::new(vec![old.clone(), Val::C((x == y) as u128)])) }
                        _ => return err("symbolic cmpxchg"),
                    }
                }
                I::Nop => Val::ZERO,
                I::Br(b) => { self.jump(s, *b); continue; }
                I::CondBr(c, a, b) => {
                    match Self::get(s, c) {
                        Val::C(k) => { self.jump(s, if k == 1 { *a } else { *b }); continue; }
                        Val::S(e) => {
                            self.stats.branches_sym += 1;
                            let cur = self.eval(s, e) == 1;
                            let ne = self.cx.not(e);
                            let (taken, other) = if cur { (e, ne) } else { (ne, e) };
                            let alt = self.feasible(s, other)?;
                            let (t1, t2) = if cur { (*a, *b) } else { (*b, *a) };
                            if let Some(m) = alt {
                                let mut t = s.clone();
                                self.add(&mut t, other, m);
                                self.jump(&mut t, t2);
                                self.add_c(s, taken);
                                self.jump(s, t1);
                                if self.trace_calls { *self.prof.entry(format!("{}#{}:{}", f.name, blk, ip)).or_insert(0) += 1; }
                                return Err(Stop::Fork(vec![t]));
                            }
                            // implied: no need to store
                            self.jump(s, t1);
                            continue;
                        }
                        _ => return err("br on aggregate"),
                    }
                }
                I::Switch(v, w, d, cs) => {
                    match Self::get(s, v) {
                        Val::C(k) => { let t = cs.iter().find(|(c, _)| *c == k).map_or(*d, |x| x.1); self.jump(s, t); continue; }
                        Val::S(e) => {
                            self.stats.branches_sym += 1;
                            let mut byt: Vec<(u32, E)> = vec![];
                            let mut none = self.cx.tru();
                            for (k, t) in cs {
                                let kc = self.cx.cst(*k, *w);
                                let q = self.cx.bin(Op::Eq, e, kc);
                                let nq = self.cx.not(q);
                                none = self.cx.and1(none, nq);
                                match byt.iter_mut().find(|x| x.0 == *t) { Some(x) => { let o = self.cx.or1(x.1, q); x.1 = o; } None => byt.push((*t, q)) }
                            }
                            match byt.iter_mut().find(|x| x.0 == *d) { Some(x) => { let o = self.cx.or1(x.1, none); x.1 = o; } None => byt.push((*d, none)) }
                            let mut out = vec![];
                            for (t, q) in byt {
                                if let Some(m) = self.feasible(s, q)? {
                                    let mut n = s.clone();
                                    self.add(&mut n, q, m);
                                    self.jump(&mut n, t);
                                    out.push(n);
                                }
                            }
                            if out.is_empty() { return err("internal: no feasible switch target"); }
                            *s = out.pop().unwrap();
                            if out.is_empty() { continue; }
                            if self.trace_calls { *self.prof.entry(format!("{}#{}:{}", f.name, blk, ip)).or_insert(0) += out.len() as u64; }
                            return Err(Stop::Fork(out));
                        }
                        _ => return err("switch on aggregate"),
                    }
                }
                I::Ret(v) => {
                    let v = match v { Some(o) => Self::get(s, o), None => Val::ZERO };
                    if self.ret(s, v) { return Ok(()); }
                    continue;
                }
                I::Unreachable => return Err(Stop::Viol(Viol { kind: "unreachable".into(), id: 0, msg: format!("unreachable reached in {}", f.name), inputs: vec![], stack: self.stack(s) })),
                I::Unsupported(m) => return err(format!("unsupported instruction: {}", m)),
                I::Call(c) => {
                    let id = match &c.callee {
                        Callee::Direct(i) => *i,
                        Callee::Named(n) => return err(format!("call of undeclared {}", n)),
                        Callee::Ind(o) => {
                            let v = Self::get(s, o);
                            let a = self.conc(s, &v, 64)? as u64;
                            let (id, off) = self.split_addr(a);
                            if id == 0 || off != 0 || id - 1 >= self.nglob() || !self.m.defs[id as usize - 1].is_fn { return err(format!("bad indirect call target {:#x}", a)); }
                            id - 1
                        }
                    };
                    let args: Vec<Val> = c.args.iter().map(|o| Self::get(s, o)).collect();
                    if self.is_builtin(id) {
                        let name = self.m.defs[id as usize].name.clone();
                        match self.builtin(s, &name, c, &args)? {
                            Some(v) => {
                                if let Some(b) = c.normal {
                                    if ins.dst != NODST { s.frames.last_mut().unwrap().regs[ins.dst as usize] = v; }
                                    self.jump(s, b);
                                    continue;
                                }
                                v
                            }
                            None => {
                                if self.m.defs[id as usize].noreturn { return Err(Stop::Viol(Viol { kind: "panic".into(), id: 0, msg: name.to_string(), inputs: vec![], stack: self.stack(s) })); }
                                return err(format!("call of external function {}", name))
                            }
                        }
                    } else {
                        if self.m.defs[id as usize].noreturn {
                            let mut st = self.stack(s);
                            st.insert(0, self.m.defs[id as usize].name.to_string());
                            return Err(Stop::Viol(Viol { kind: "panic".into(), id: 0, msg: self.m.defs[id as usize].name.to_string(), inputs: vec![], stack: st }));
                        }
                        if s.frames.len() >= self.lim.max_depth {
                            return Err(Stop::Viol(Viol { kind: "hang".into(), id: 1, msg: format!("recursion deeper than {} frames", self.lim.max_depth), inputs: vec![], stack: self.stack(s) }));
                        }
                        match crate::stubs::stub(self, s, id, &args, ins.dst, c)? {
                            Some(crate::stubs::Out::Val(v)) => {
                                if let Some(b) = c.normal {
                                    if ins.dst != NODST { s.frames.last_mut().unwrap().regs[ins.dst as usize] = v; }
                                    self.jump(s, b);
                                    continue;
                                }
                                v
                            }
                            Some(crate::stubs::Out::Framed) => continue,
                            None => { self.push_frame(s, id, args, ins.dst, c.normal)?; continue; }
                        }
                    }
                }
            };
            let fr = s.frames.last_mut().unwrap();
            if ins.dst != NODST { fr.regs[ins.dst as usize] = v; }
            fr.ip += 1;
        }
    }
    fn div(&mut self, s: &mut State, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let Val::S(e) = b {
            // the divisor must not be zero
            let z = self.cx.cst(0, w);
            let q = self.cx.bin(Op::Eq, *e, z);
            if self.feasible(s, q)?.is_some() { return err("division by a possibly zero value"); }
        }
        self.bin(op, w, a, b)
    }
    pub fn explore(&mut self, entry: u32, args: &[u64]) {
        let t0 = Instant::now();
        self.t0 = t0;
        let mut errors = 0;
        let mut s = State {
            frames: vec![], mem: Mem::new(self.nglob()), multi: vec![], dom: vec![], in_multi: vec![], conc: Default::default(),
            model: Rc::new(vec![]), model_id: 0, inputs: vec![], notes: vec![], covers: Default::default(), steps: 0, asserts: 0, forks: 0,
        };
        if let Err(Stop::Err(e)) = self.push_frame(&mut s, entry, args.iter().map(|x| Val::C(*x as u128)).collect(), NODST, None) { self.incomplete = Some(e); return; }
        let mut work = vec![s];
        // deterministic breadth-first prefix, then every n-th state belongs to this worker
        let mut splitting = self.split.1 > 1;
        let mut rr = 0usize;
        loop {
            if splitting && work.len() as u64 >= 4 * self.split.1 {
                let all = std::mem::take(&mut work);
                for (i, st) in all.into_iter().enumerate() { if i as u64 % self.split.1 == self.split.0 { work.push(st); } }
                splitting = false;
            }
            let mut s = if splitting { if work.is_empty() { break; } rr = if rr >= work.len() { 0 } else { rr }; work.remove(rr) } else { match work.pop() { Some(s) => s, None => break } };
            let start = s.steps;
            let r = self.run(&mut s);
            self.stats.steps += s.steps - start;
            let mine = !splitting || self.split.0 == 0; // ends found in the shared prefix are reported once
            match r {
                Ok(()) => { if mine { self.stats.paths_ok += 1; self.finish(&s, "ok"); } }
                Err(Stop::Fork(v)) => {
                    self.stats.forks += v.len() as u64;
                    if splitting { work.insert(rr, s); rr += 1; work.extend(v); } else { work.extend(v); work.push(s); }
                }
                Err(Stop::Replace(v)) => {
                    self.stats.forks += v.len() as u64 - 1;
                    work.extend(v);
                }
                Err(Stop::End(k)) => { if mine { if k == "assume" { self.stats.paths_assumed_away += 1 } else { self.stats.paths_viol += 1 } self.finish(&s, &k); } }
                Err(Stop::Viol(mut v)) => {
                    if mine {
                        v.inputs = self.input_bytes(&s, &s.model.clone());
                        self.stats.paths_viol += 1;
                        self.viols.push(v);
                        self.finish(&s, "violation");
                    }
                }
                Err(Stop::Err(e)) => {
                    let inp = self.input_bytes(&s, &s.model.clone());
                    // the path is lost, the others are still explored
                    errors += 1;
                    if self.incomplete.is_none() { self.incomplete = Some(format!("{} | inputs {:02x?} | stack {:?}", e, inp, self.stack(&s))); }
                    if errors > 200 || self.t0.elapsed().as_secs_f64() > self.lim.max_time { return; }
                }
            }
            if self.viols.len() >= self.lim.max_viol { break; }
            let paths = self.stats.paths_ok + self.stats.paths_viol + self.stats.paths_assumed_away;
            if paths > self.lim.max_paths { self.incomplete = Some(format!("more than {} paths", self.lim.max_paths)); return; }
            if t0.elapsed().as_secs_f64() > self.lim.max_time { self.incomplete = Some(format!("time limit {} s", self.lim.max_time)); return; }
        }
    }
    fn finish(&mut self, s: &State, end: &str) {
        for c in &s.covers { *self.covers.entry(*c).or_insert(0) += 1; }
        // a uniform sample of the explored paths, for replay on the machine
        if end == "violation" { return; }
        self.ended += 1;
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let k = (self.seed >> 33) % self.ended;
        if self.traces.len() >= self.lim.max_traces && k >= self.lim.max_traces as u64 { return; }
        let mut notes = vec![];
        for (t, v) in &s.notes { let k = match v { Val::C(c) => *c as u64, Val::S(e) => self.cx.eval(*e, &s.model, s.model_id) as u64, _ => 0 }; notes.push((*t, k)); }
        let inputs = self.input_bytes(s, &s.model.clone());
        let t = Trace { end: end.into(), inputs, notes, asserts: s.asserts };
        if self.traces.len() < self.lim.max_traces { self.traces.push(t); } else { self.traces[k as usize] = t; }
    }
    pub fn api_fresh(&mut self, s: &mut State, dom: [u64; 4], init: u8) -> E { self.fresh(s, dom, init) }
    pub fn api_load(&mut self, s: &mut State, p: &Val, t: &Ty) -> R<Val> { self.load(s, p, t) }
    pub fn api_store(&mut self, s: &mut State, p: &Val, t: &Ty, v: &Val) -> R<()> { self.store(s, p, t, v) }
    pub fn api_alloc(&mut self, s: &mut State, n: u64) -> R<u64> { self.alloc(s, n) }
    pub fn api_eval(&mut self, s: &State, e: E) -> u128 { self.eval(s, e) }
    pub fn api_add(&mut self, s: &mut State, e: E) { self.add_c(s, e) }
    pub fn api_feasible(&mut self, s: &State, e: E) -> R<Option<(Rc<Vec<u8>>, u64)>> { self.feasible(s, e) }
    pub fn api_push(&mut self, s: &mut State, id: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> R<()> { self.push_frame(s, id, args, dst, normal) }
    pub fn api_conc(&mut self, s: &mut State, v: &Val, limit: usize) -> R<u128> { self.conc(s, v, limit) }
}
impl State { pub fn conc_map(&mut self) -> &mut FxMap<E, u128> { &mut self.conc } }

fn ins_path(v: Val, e: Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return e; }
    match v {
        Val::A(x) => { let mut y = (*x).clone(); let i = ix[0] as usize; y[i] = ins_path(y[i].clone(), e, &ix[1..]); Val::A(Rc::new(y)) }
        v => v,
    }
}
