//! Hash-consed bit-vector expression DAG over 8-bit input variables, with
//! normalising constructors (slices/concats), known bits and unsigned ranges.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) { for b in bytes { self.write_u64(*b as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 32;
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, Extract, Concat, SExt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key { op: Op, w: u16, a: u32, b: u32, c: u32, k: u128 }

pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E, // Extract: operand ; Concat: high part
    pub b: E, // Extract: low bit ; Concat: low part
    pub c: E,
    pub k: u128,
    pub kz: u128, // bits known to be zero
    pub ko: u128, // bits known to be one
    pub lo: u128,
    pub hi: u128,
    pub vars: u32,
}

pub struct Ctx {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    pub varsets: Vec<Vec<u32>>,
    vs_map: HashMap<Vec<u32>, u32>,
    vs_union: FxMap<(u32, u32), u32>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur_stamp: u32,
    cur_model: u64,
    bitmaps: FxMap<E, [u64; 4]>,
    pub nvars: u32,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

pub fn eval_op(op: Op, w: u16, x: u128, y: u128, wx: u16) -> u128 {
    let m = mask(w);
    match op {
        Add => x.wrapping_add(y) & m,
        Sub => x.wrapping_sub(y) & m,
        Mul => x.wrapping_mul(y) & m,
        UDiv => if y == 0 { m } else { x / y },
        URem => if y == 0 { x } else { x % y },
        SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m } }
        SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m } }
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        LShr => if y >= w as u128 { 0 } else { x >> y },
        AShr => { let a = sext(x, w); let s = if y >= w as u128 { w as u128 - 1 } else { y }; ((a >> s) as u128) & m }
        Eq => (x == y) as u128,
        Ult => (x < y) as u128,
        Slt => (sext(x, wx) < sext(y, wx)) as u128,
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            n: vec![], map: Default::default(), varsets: vec![vec![]], vs_map: HashMap::new(),
            vs_union: Default::default(), stamp: vec![], val: vec![], cur_stamp: 0, cur_model: !0,
            bitmaps: Default::default(), nvars: 0,
        };
        c.vs_map.insert(vec![], 0);
        // index 0 is reserved so that E==0 may denote "none"
        c.n.push(Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: 0, kz: 1, ko: 0, lo: 0, hi: 0, vars: 0 });
        c.stamp.push(0); c.val.push(0);
        c
    }
    pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Const { Some(n.k) } else { None }
    }
    pub fn vars(&self, e: E) -> &[u32] { &self.varsets[self.n[e as usize].vars as usize] }
    fn vs_intern(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.vs_map.get(&v) { return i; }
        let i = self.varsets.len() as u32;
        self.varsets.push(v.clone());
        self.vs_map.insert(v, i);
        i
    }
    fn vs_un(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&i) = self.vs_union.get(&k) { return i; }
        let mut v: Vec<u32> = self.varsets[a as usize].iter().chain(self.varsets[b as usize].iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        let i = self.vs_intern(v);
        self.vs_union.insert(k, i);
        i
    }
    fn intern(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let key = Key { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&key) { return e; }
        let e = self.n.len() as E;
        let m = mask(w);
        let (mut kz, mut ko, mut lo, mut hi) = (0u128, 0u128, 0u128, m);
        let g = |i: E| { let n = &self.n[i as usize]; (n.kz, n.ko, n.lo, n.hi, n.w) };
        match op {
            Const => { kz = !k & m; ko = k; lo = k; hi = k; }
            Var => {}
            Extract => {
                let (az, ao, alo, ahi, _) = g(a);
                kz = (az >> b) & m; ko = (ao >> b) & m;
                if ahi >> b <= m { lo = alo >> b; hi = ahi >> b; }
            }
            Concat => {
                let (az, ao, alo, ahi, _) = g(a);
                let (bz, bo, blo, bhi, bw) = g(b);
                kz = (az << bw) | bz; ko = (ao << bw) | bo;
                lo = (alo << bw) | blo; hi = (ahi << bw) | bhi;
            }
            SExt => {
                let (az, ao, _, ahi, aw) = g(a);
                let hb = m & !mask(aw);
                kz = az; ko = ao;
                if az >> (aw - 1) & 1 == 1 { kz |= hb; hi = ahi; }
                if ao >> (aw - 1) & 1 == 1 { ko |= hb; }
            }
            And => {
                let (az, ao, _, ah, _) = g(a); let (bz, bo, _, bh, _) = g(b);
                kz = az | bz; ko = ao & bo; hi = ah.min(bh);
            }
            Or => {
                let (az, ao, al, _, _) = g(a); let (bz, bo, bl, _, _) = g(b);
                kz = az & bz; ko = ao | bo; lo = al.max(bl);
            }
            Xor => {
                let (az, ao, _, _, _) = g(a); let (bz, bo, _, _, _) = g(b);
                kz = (az & bz) | (ao & bo); ko = (az & bo) | (ao & bz);
            }
            Add => {
                let (az, _, al, ah, _) = g(a); let (bz, _, bl, bh, _) = g(b);
                if let (Some(h), Some(l)) = (ah.checked_add(bh), al.checked_add(bl)) {
                    if h <= m { lo = l; hi = h; }
                    else if l > m { lo = l & m; hi = h & m; } // both wrap once
                }
                let tz = az.trailing_ones().min(bz.trailing_ones()).min(w as u32);
                kz = mask(tz as u16) & m;
            }
            Sub => {
                let (_, _, al, ah, _) = g(a); let (_, _, bl, bh, _) = g(b);
                if al >= bh { lo = al - bh; hi = ah - bl; }
                else if ah < bl { lo = al.wrapping_sub(bh) & m; hi = ah.wrapping_sub(bl) & m; }
            }
            Mul => {
                let (az, _, al, ah, _) = g(a); let (bz, _, bl, bh, _) = g(b);
                if let Some(h) = ah.checked_mul(bh) { if h <= m { lo = al * bl; hi = h; } }
                let tz = (az.trailing_ones() + bz.trailing_ones()).min(w as u32);
                kz = mask(tz as u16) & m;
            }
            UDiv => {
                let (_, _, al, ah, _) = g(a); let (_, _, bl, bh, _) = g(b);
                if bl > 0 { lo = al / bh; hi = ah / bl; }
            }
            URem => {
                let (_, _, _, ah, _) = g(a); let (_, _, bl, bh, _) = g(b);
                if bl > 0 { hi = ah.min(bh - 1); }
            }
            Shl | LShr => {
                let (az, ao, al, ah, _) = g(a);
                if let Some(s) = self.as_const(b) {
                    let s = s.min(127) as u32;
                    if op == Shl { kz = ((az << s) | (mask(s as u16))) & m; ko = (ao << s) & m; }
                    else { kz = (az >> s) | (m & !(m >> s)); ko = ao >> s; lo = al >> s; hi = ah >> s; }
                } else if op == LShr { hi = ah; }
            }
            Ite => {
                let (az, ao, al, ah, _) = g(b); let (bz, bo, bl, bh, _) = g(c);
                kz = az & bz; ko = ao & bo; lo = al.min(bl); hi = ah.max(bh);
            }
            _ => {}
        }
        // tighten range with known bits and vice versa
        lo = lo.max(ko); hi = hi.min(m & !kz);
        if lo > hi { lo = ko; hi = m & !kz; }
        let lz = (!hi & m).leading_zeros(); // leading ones within m computed below
        let _ = lz;
        let hb = 128 - hi.leading_zeros();
        kz |= m & !mask(hb as u16);
        let vars = match op {
            Const => 0,
            Var => { let v = vec![k as u32]; self.vs_intern(v) }
            Extract | SExt => self.n[a as usize].vars,
            Ite => {
                let (x, y, z) = (self.n[a as usize].vars, self.n[b as usize].vars, self.n[c as usize].vars);
                let t = self.vs_un(x, y);
                self.vs_un(t, z)
            }
            _ => { let (x, y) = (self.n[a as usize].vars, self.n[b as usize].vars); self.vs_un(x, y) }
        };
        if lo == hi && op != Const {
            let r = self.cst(lo, w);
            self.map.insert(key, r);
            return r;
        }
        self.n.push(Node { op, w, a, b, c, k, kz, ko, lo, hi, vars });
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert(key, e);
        e
    }
    pub fn cst(&mut self, k: u128, w: u16) -> E { self.intern(Const, w, 0, 0, 0, k & mask(w)) }
    pub fn var(&mut self, id: u32) -> E {
        if id + 1 > self.nvars { self.nvars = id + 1 }
        self.intern(Var, 8, 0, 0, 0, id as u128)
    }
    pub fn tru(&mut self) -> E { self.cst(1, 1) }
    pub fn fls(&mut self) -> E { self.cst(0, 1) }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.cst(mask(w), w);
        self.bin(Xor, e, m)
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew { return e; }
        if let Some(k) = self.as_const(e) { return self.cst(k >> lo, w); }
        let (op, a, b, c) = { let n = &self.n[e as usize]; (n.op, n.a, n.b, n.c) };
        match op {
            Extract => return self.extract(a, lo + b as u16, w),
            Concat => {
                let bw = self.w(b);
                if lo >= bw { return self.extract(a, lo - bw, w); }
                if lo + w <= bw { return self.extract(b, lo, w); }
                let h = self.extract(a, 0, lo + w - bw);
                let l = self.extract(b, lo, bw - lo);
                return self.concat(h, l);
            }
            SExt => {
                let aw = self.w(a);
                if lo + w <= aw { return self.extract(a, lo, w); }
                if lo < aw { let t = self.extract(a, lo, aw - lo); return self.sext(t, w); }
                let t = self.extract(a, aw - 1, 1);
                return self.sext(t, w);
            }
            And | Or | Xor => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                return self.bin(op, x, y);
            }
            Add | Sub | Mul if lo == 0 => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                return self.bin(op, x, y);
            }
            Ite => {
                // push into constant-ish branches only
                if self.as_const(b).is_some() || self.as_const(c).is_some() {
                    let x = self.extract(b, lo, w);
                    let y = self.extract(c, lo, w);
                    return self.ite(a, x, y);
                }
            }
            _ => {}
        }
        // known bits
        let (kz, ko) = { let n = &self.n[e as usize]; ((n.kz >> lo) & mask(w), (n.ko >> lo) & mask(w)) };
        if kz | ko == mask(w) { return self.cst(ko, w); }
        self.intern(Extract, w, e, lo as u32, 0, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if w > 128 { panic!("symex: expression wider than 128 bits"); }
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.cst((x << lw) | y, w); }
        let (lop, la, lb) = { let n = &self.n[l as usize]; (n.op, n.a, n.b) };
        // adjacency: h = x[k+lw ..], l = x[k .. k+lw]
        let (hop, ha, hb) = { let n = &self.n[h as usize]; (n.op, n.a, n.b) };
        if hop == Extract {
            if lop == Extract && la == ha && lb as u16 + lw == hb as u16 { return self.extract(ha, lb as u16, w); }
            if la != 0 && lop != Extract && ha == l && hb as u16 == lw { return self.extract(ha, 0, w); }
        }
        if lop == Extract && la == h { /* not adjacent in this direction */ }
        if hop == Extract && ha == l && hb as u16 == lw { return self.extract(ha, 0, w); }
        // right-nest: concat(concat(a,b),c) => concat(a, concat(b,c))
        if hop == Concat {
            let t = self.concat(hb, l);
            return self.concat(ha, t);
        }
        if lop == Concat {
            // try merging h with the high part of l
            let lah = la;
            let (aop, aa, ab) = { let n = &self.n[lah as usize]; (n.op, n.a, n.b) };
            let law = self.w(lah);
            let merged = if hop == Extract && aop == Extract && aa == ha && ab as u16 + law == hb as u16 {
                Some(self.extract(ha, ab as u16, hw + law))
            } else if hop == Extract && ha == lah && hb as u16 == law {
                Some(self.extract(ha, 0, hw + law))
            } else if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(lah)) {
                Some(self.cst((x << law) | y, hw + law))
            } else { None };
            if let Some(m) = merged {
                return self.concat(m, lb);
            }
        }
        self.intern(Concat, w, h, l, 0, 0)
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        let z = self.cst(0, w - ew);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        if let Some(k) = self.as_const(e) { return self.cst(sext(k, ew) as u128, w); }
        let n = &self.n[e as usize];
        if n.kz >> (ew - 1) & 1 == 1 { return self.zext(e, w); }
        if n.op == SExt { let a = n.a; return self.sext(a, w); }
        if ew == 1 { let (a, b) = (self.cst(mask(w), w), self.cst(0, w)); return self.ite(e, a, b); }
        self.intern(SExt, w, e, 0, 0, 0)
    }
    pub fn resize(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew >= w { self.extract(e, 0, w) } else { self.zext(e, w) }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        let w = self.w(a);
        // not in the condition
        let (cop, ca, cb) = { let n = &self.n[c as usize]; (n.op, n.a, n.b) };
        if cop == Xor && self.as_const(cb) == Some(1) { return self.ite(ca, b, a); }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(And, n, b); }
                (None, Some(0)) => return self.bin(And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Or, n, a); }
                _ => {}
            }
        }
        // ite(c, x, ite(c, y, z)) = ite(c, x, z)
        { let n = &self.n[b as usize]; if n.op == Ite && n.a == c { let z = n.c; return self.ite(c, a, z); } }
        { let n = &self.n[a as usize]; if n.op == Ite && n.a == c { let y = n.b; return self.ite(c, y, b); } }
        self.intern(Ite, w, c, a, b, 0)
    }
    /// width-1 and-of-list
    pub fn and1(&mut self, a: E, b: E) -> E { self.bin(And, a, b) }
    pub fn or1(&mut self, a: E, b: E) -> E { self.bin(Or, a, b) }

    fn is_not(&self, e: E) -> Option<E> {
        let n = &self.n[e as usize];
        if n.op == Xor && n.w == 1 && self.as_const(n.b) == Some(1) { Some(n.a) } else { None }
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, Eq | Ult | Slt) { 1 } else { w };
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(eval_op(op, rw, x, y, w), rw);
        }
        // commutative: constant to the right
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let kb = self.as_const(b);
        match op {
            Add => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    let n = &self.n[a as usize];
                    if n.op == Add { if let Some(x) = self.as_const(n.b) { let (na, k) = (n.a, x.wrapping_add(y)); let k = self.cst(k, w); return self.bin(Add, na, k); } }
                    if n.op == Sub { if let Some(x) = self.as_const(n.a) { let nb = n.b; let k = self.cst(x.wrapping_add(y), w); return self.bin(Sub, k, nb); } }
                }
                // (x + k1) + y => (x+y)+k1
                if kb.is_none() {
                    let n = &self.n[a as usize];
                    if n.op == Add { if let Some(_) = self.as_const(n.b) { let (x, k) = (n.a, n.b); let t = self.bin(Add, x, b); return self.bin(Add, t, k); } }
                    let n = &self.n[b as usize];
                    if n.op == Add { if let Some(_) = self.as_const(n.b) { let (x, k) = (n.a, n.b); let t = self.bin(Add, a, x); return self.bin(Add, t, k); } }
                    // (p - q) + q => p
                    let n = &self.n[a as usize];
                    if n.op == Sub && n.b == b { return n.a; }
                    let n = &self.n[b as usize];
                    if n.op == Sub && n.b == a { return n.a; }
                }
                if (!self.n[a as usize].kz & m) & (!self.n[b as usize].kz & m) == 0 { return self.bin(Or, a, b); }
            }
            Sub => {
                if a == b { return self.cst(0, w); }
                if let Some(y) = kb { let k = self.cst(y.wrapping_neg(), w); return self.bin(Add, a, k); }
                let (aop, aa, ab) = { let n = &self.n[a as usize]; (n.op, n.a, n.b) };
                let (bop, ba, bb) = { let n = &self.n[b as usize]; (n.op, n.a, n.b) };
                if aop == Add && ab == b { return aa; }
                if aop == Add && aa == b { return ab; }
                if aop == Add && self.as_const(ab).is_some() { let t = self.bin(Sub, aa, b); return self.bin(Add, t, ab); }
                if bop == Add { if let Some(k) = self.as_const(bb) { let t = self.bin(Sub, a, ba); let k = self.cst(k.wrapping_neg(), w); return self.bin(Add, t, k); } }
                if bop == Sub && ba == a { return bb; }
            }
            Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(y) = kb {
                    if y.is_power_of_two() { let s = self.cst(y.trailing_zeros() as u128, w); return self.bin(Shl, a, s); }
                }
            }
            UDiv => {
                if let Some(y) = kb {
                    if y == 1 { return a; }
                    if y.is_power_of_two() { let s = self.cst(y.trailing_zeros() as u128, w); return self.bin(LShr, a, s); }
                    if self.n[a as usize].hi < y { return self.cst(0, w); }
                    return self.narrow_div(op, a, y, w);
                }
            }
            URem => {
                if let Some(y) = kb {
                    if y.is_power_of_two() { let k = self.cst(y - 1, w); return self.bin(And, a, k); }
                    if y != 0 && self.n[a as usize].hi < y { return a; }
                    if y != 0 { return self.narrow_div(op, a, y, w); }
                }
            }
            And => {
                if a == b { return a; }
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.fls(); }
                } else if let Some(y) = kb {
                    // contiguous pieces: split mask into runs
                    let x = self.n[a as usize].kz;
                    if (!x & m) & !y == 0 { return a; }
                    return self.and_const(a, y, w);
                }
                if (!self.n[a as usize].kz & m) & (!self.n[b as usize].kz & m) == 0 { return self.cst(0, w); }
            }
            Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.tru(); }
                } else {
                    if let Some(r) = self.slicewise(op, a, b, w) { return r; }
                }
            }
            Xor => {
                if a == b { return self.cst(0, w); }
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    let n = &self.n[a as usize];
                    if n.op == Xor { if let Some(x) = self.as_const(n.b) { let na = n.a; let k = self.cst(x ^ y, w); return self.bin(Xor, na, k); } }
                    if n.op == Ite && (self.as_const(n.b).is_some() && self.as_const(n.c).is_some()) {
                        let (c, p, q) = (n.a, n.b, n.c);
                        let p = self.bin(Xor, p, b); let q = self.bin(Xor, q, b);
                        return self.ite(c, p, q);
                    }
                }
                if w > 1 { if let Some(r) = self.slicewise(op, a, b, w) { return r; } }
            }
            Shl => {
                if let Some(y) = kb {
                    if y == 0 { return a; }
                    if y >= w as u128 { return self.cst(0, w); }
                    let z = self.cst(0, y as u16);
                    let h = self.extract(a, 0, w - y as u16);
                    return self.concat(h, z);
                }
            }
            LShr => {
                if let Some(y) = kb {
                    if y == 0 { return a; }
                    if y >= w as u128 { return self.cst(0, w); }
                    let h = self.extract(a, y as u16, w - y as u16);
                    return self.zext(h, w);
                }
            }
            AShr => {
                if let Some(y) = kb {
                    if y == 0 { return a; }
                    let y = y.min(w as u128 - 1);
                    let h = self.extract(a, y as u16, w - y as u16);
                    return self.sext(h, w);
                }
            }
            Eq => {
                if a == b { return self.tru(); }
                if w == 1 {
                    if kb == Some(1) { return a; }
                    if kb == Some(0) { return self.not(a); }
                    let x = self.bin(Xor, a, b);
                    return self.not(x);
                }
                {
                    let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
                    if x.hi < y.lo || y.hi < x.lo { return self.fls(); }
                    if x.kz & y.ko != 0 || x.ko & y.kz != 0 { return self.fls(); }
                }
                let (aop, aa, ab, ac) = { let n = &self.n[a as usize]; (n.op, n.a, n.b, n.c) };
                if let Some(y) = kb {
                    match aop {
                        Concat => {
                            let lw = self.w(ab); let hw = self.w(aa);
                            let l = self.cst(y, lw); let h = self.cst(y >> lw, hw);
                            let p = self.bin(Eq, ab, l); let q = self.bin(Eq, aa, h);
                            return self.bin(And, p, q);
                        }
                        Ite => {
                            if self.as_const(ab).is_some() || self.as_const(ac).is_some() {
                                let p = self.bin(Eq, ab, b); let q = self.bin(Eq, ac, b);
                                return self.ite(aa, p, q);
                            }
                        }
                        Xor => if let Some(x) = self.as_const(ab) { let k = self.cst(x ^ y, w); return self.bin(Eq, aa, k); }
                        Add => if let Some(x) = self.as_const(ab) { let k = self.cst(y.wrapping_sub(x), w); return self.bin(Eq, aa, k); }
                        Sub => if let Some(x) = self.as_const(aa) { let k = self.cst(x.wrapping_sub(y), w); return self.bin(Eq, ab, k); }
                        SExt => {
                            let aw = self.w(aa);
                            let t = y & mask(aw);
                            if (sext(t, aw) as u128) & m != y { return self.fls(); }
                            let k = self.cst(t, aw);
                            return self.bin(Eq, aa, k);
                        }
                        _ => {}
                    }
                } else {
                    let (bop, ba, bb) = { let n = &self.n[b as usize]; (n.op, n.a, n.b) };
                    // split on concat boundaries
                    if aop == Concat && (bop == Concat || bop == Var || bop == Extract || true) {
                        let lw = self.w(ab);
                        if bop == Concat || bop == Extract || bop == Var {
                            let bl = self.extract(b, 0, lw);
                            let bh = self.extract(b, lw, w - lw);
                            let p = self.bin(Eq, ab, bl); let q = self.bin(Eq, aa, bh);
                            return self.bin(And, p, q);
                        }
                    } else if bop == Concat && (aop == Extract || aop == Var) {
                        let lw = self.w(bb);
                        let al = self.extract(a, 0, lw);
                        let ah = self.extract(a, lw, w - lw);
                        let p = self.bin(Eq, al, bb); let q = self.bin(Eq, ah, ba);
                        return self.bin(And, p, q);
                    }
                    if aop == Add && bop == Add && ab == bb && self.as_const(ab).is_some() { return self.bin(Eq, aa, ba); }
                }
            }
            Ult => {
                if a == b { return self.fls(); }
                {
                    let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
                    if x.hi < y.lo { return self.tru(); }
                    if x.lo >= y.hi { return self.fls(); }
                }
                if w == 1 { let na = self.not(a); return self.bin(And, na, b); }
                if let Some(y) = kb {
                    if y == 1 { let z = self.cst(0, w); return self.bin(Eq, a, z); }
                    if y == m { let z = self.cst(m, w); let e = self.bin(Eq, a, z); return self.not(e); }
                }
                if let Some(x) = self.as_const(a) {
                    if x == 0 { let z = self.cst(0, w); let e = self.bin(Eq, b, z); return self.not(e); }
                    if x == m - 1 { let z = self.cst(m, w); return self.bin(Eq, b, z); }
                }
                // strip common known-zero high part
                let hb = (!self.n[a as usize].kz & m) | (!self.n[b as usize].kz & m);
                let need = (128 - hb.leading_zeros()) as u16;
                if need < w && need > 0 {
                    let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                    return self.bin(Ult, x, y);
                }
                // constant vs concat: compare by low-zero alignment: concat(h, l) < k with low bits of k zero => h < k_h
                if let Some(y) = kb {
                    let n = &self.n[a as usize];
                    if n.op == Concat {
                        let (h, l) = (n.a, n.b);
                        let lw = self.w(l);
                        if y & mask(lw) == 0 { let hw = self.w(h); let k = self.cst(y >> lw, hw); return self.bin(Ult, h, k); }
                    }
                    if n.op == Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                        let (c, p, q) = (n.a, n.b, n.c);
                        let p = self.bin(Ult, p, b); let q = self.bin(Ult, q, b);
                        return self.ite(c, p, q);
                    }
                }
                if let Some(x) = self.as_const(a) {
                    let n = &self.n[b as usize];
                    if n.op == Concat {
                        let (h, l) = (n.a, n.b);
                        let lw = self.w(l);
                        if x & mask(lw) == mask(lw) { let hw = self.w(h); let k = self.cst(x >> lw, hw); return self.bin(Ult, k, h); }
                    }
                    if n.op == Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                        let (c, p, q) = (n.a, n.b, n.c);
                        let p = self.bin(Ult, a, p); let q = self.bin(Ult, a, q);
                        return self.ite(c, p, q);
                    }
                }
            }
            Slt => {
                if a == b { return self.fls(); }
                let sb = 1u128 << (w - 1);
                let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
                let (xn, xp, yn, yp) = (x.ko & sb != 0, x.kz & sb != 0, y.ko & sb != 0, y.kz & sb != 0);
                if (xn && yn) || (xp && yp) { return self.bin(Ult, a, b); }
                if xn && yp { return self.tru(); }
                if xp && yn { return self.fls(); }
                // slt x, 0 => sign bit
                if kb == Some(0) { return self.extract(a, w - 1, 1); }
                if self.as_const(a) == Some(m) { let s = self.extract(b, w - 1, 1); return self.not(s); }
            }
            _ => {}
        }
        // distribute over an ite with two constant arms when the other side is constant
        if kb.is_some() && matches!(op, Add | Mul | And | Or | Slt | Eq) {
            let n = &self.n[a as usize];
            if n.op == Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                let (c, p, q) = (n.a, n.b, n.c);
                let p = self.bin(op, p, b); let q = self.bin(op, q, b);
                return self.ite(c, p, q);
            }
        }
        self.intern(op, rw, a, b, 0, 0)
    }
    /// division/remainder by a constant on the narrowest width that fits
    fn narrow_div(&mut self, op: Op, a: E, y: u128, w: u16) -> E {
        let hi = self.n[a as usize].hi.max(y);
        let need = (128 - hi.leading_zeros()) as u16;
        if need + 1 < w {
            let x = self.extract(a, 0, need);
            let k = self.cst(y, need);
            let r = self.intern(op, need, x, k, 0, 0);
            return self.zext(r, w);
        }
        let k = self.cst(y, w);
        self.intern(op, w, a, k, 0, 0)
    }
    fn and_const(&mut self, a: E, y: u128, w: u16) -> E {
        // build a concat of kept slices and zero runs
        let mut parts: Vec<E> = vec![];
        let mut i = 0u16;
        while i < w {
            let bit = (y >> i) & 1;
            let mut j = i;
            while j < w && (y >> j) & 1 == bit { j += 1; }
            let p = if bit == 1 { self.extract(a, i, j - i) } else { self.cst(0, j - i) };
            parts.push(p);
            i = j;
        }
        let mut r = parts.pop().unwrap();
        while let Some(p) = parts.pop() { r = self.concat(r, p); }
        r
    }
    /// Or/Xor done piecewise at the boundaries where one side is known zero / constant
    fn slicewise(&mut self, op: Op, a: E, b: E, w: u16) -> Option<E> {
        let m = mask(w);
        let (az, bz) = (self.n[a as usize].kz & m, self.n[b as usize].kz & m);
        let any = az | bz;
        if any == 0 { return None; }
        // runs by class: 0 = neither zero, 1 = a zero, 2 = b zero (or both)
        let class = |i: u16| -> u8 { if (bz >> i) & 1 == 1 { 2 } else if (az >> i) & 1 == 1 { 1 } else { 0 } };
        let mut runs: Vec<(u16, u16, u8)> = vec![];
        let mut i = 0u16;
        while i < w {
            let c = class(i);
            let mut j = i;
            while j < w && class(j) == c { j += 1; }
            runs.push((i, j - i, c));
            i = j;
        }
        if runs.len() == 1 && runs[0].2 == 0 { return None; }
        if runs.len() > 16 { return None; }
        let mut r: Option<E> = None;
        for &(lo, len, c) in runs.iter().rev() {
            let p = match c {
                2 => self.extract(a, lo, len),
                1 => self.extract(b, lo, len),
                _ => {
                    let x = self.extract(a, lo, len); let y = self.extract(b, lo, len);
                    if runs.len() == 1 { return None; }
                    self.bin(op, x, y)
                }
            };
            r = Some(match r { None => p, Some(h) => self.concat(h, p) });
        }
        r
    }

    // ---------- evaluation ----------
    pub fn begin_eval(&mut self, model_id: u64) {
        if self.cur_model != model_id {
            self.cur_model = model_id;
            self.cur_stamp += 1;
        }
    }
    /// evaluate under `model` (identified by `model_id`; values cached while the id is unchanged)
    pub fn eval(&mut self, e: E, model: &[u8], model_id: u64) -> u128 {
        self.begin_eval(model_id);
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.cur_stamp { return self.val[i]; }
        let (op, w, a, b, c, k) = { let n = &self.n[i]; (n.op, n.w, n.a, n.b, n.c, n.k) };
        let r = match op {
            Const => return k,
            Var => model.get(k as usize).copied().unwrap_or(0) as u128,
            Extract => (self.ev(a, model) >> b) & mask(w),
            Concat => { let h = self.ev(a, model); let l = self.ev(b, model); (h << self.w(b)) | l }
            SExt => { let v = self.ev(a, model); let aw = self.w(a); (sext(v, aw) as u128) & mask(w) }
            Ite => if self.ev(a, model) == 1 { self.ev(b, model) } else { self.ev(c, model) },
            _ => { let x = self.ev(a, model); let y = self.ev(b, model); let wx = self.w(a); eval_op(op, w, x, y, wx) }
        };
        self.stamp[i] = self.cur_stamp;
        self.val[i] = r;
        r
    }
    /// values of a single-variable expression for all 256 values of that variable
    pub fn table(&mut self, e: E) -> Vec<u128> {
        let v = self.vars(e)[0] as usize;
        let mut model = vec![0u8; v + 1];
        let mut out = Vec::with_capacity(256);
        for i in 0..256 {
            model[v] = i as u8;
            self.cur_model = !0;
            self.cur_stamp += 1;
            out.push(self.ev(e, &model));
        }
        self.cur_model = !0;
        self.cur_stamp += 1;
        out
    }
    pub fn bitmap(&mut self, e: E) -> [u64; 4] {
        if let Some(b) = self.bitmaps.get(&e) { return *b; }
        let t = self.table(e);
        let mut r = [0u64; 4];
        for i in 0..256 { if t[i] == 1 { r[i >> 6] |= 1 << (i & 63); } }
        self.bitmaps.insert(e, r);
        r
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = &self.n[e as usize];
        if depth == 0 { return "..".into(); }
        match n.op {
            Const => format!("{:#x}:{}", n.k, n.w),
            Var => format!("v{}", n.k),
            Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            SExt => format!("sext({})", self.show(n.a, depth - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
