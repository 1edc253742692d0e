//! Hash-consed bit-vector expressions over symbolic bytes, with simplification and evaluation.
use crate::ir::mask128;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];

pub fn dom_has(d: &Dom, v: u8) -> bool { d[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn dom_not(a: &Dom) -> Dom { [!a[0], !a[1], !a[2], !a[3]] }
pub fn dom_empty(a: &Dom) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn dom_first(a: &Dom) -> Option<u8> { for v in 0..=255u8 { if dom_has(a, v) { return Some(v) } } None }
pub fn dom_set(a: &mut Dom, v: u8) { a[(v >> 6) as usize] |= 1 << (v & 63) }
pub fn dom_iter(d: Dom) -> impl Iterator<Item = u8> { (0..=255u8).filter(move |v| dom_has(&d, *v)) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Sym(u32),
    Add(E, E), Sub(E, E), Mul(E, E), UDiv(E, E), URem(E, E), SDiv(E, E), SRem(E, E),
    Shl(E, E), LShr(E, E), AShr(E, E), And(E, E), Or(E, E), Xor(E, E),
    Eq(E, E), Ult(E, E), Ule(E, E), Slt(E, E), Sle(E, E),
    Ite(E, E, E),
    ZExt(E), SExt(E),
    /// low bit
    Extract(E, u16),
    /// high part, low part
    Concat(E, E),
    /// table lookup: table id, index symbol (unary)
    Lut(u32, u32),
}

#[derive(Clone, Debug)]
pub enum Supp { None, One(u32), Many(Rc<[u32]>) }

pub struct Node { pub k: K, pub w: u16, pub supp: Supp }

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u16), E, BuildFx>,
    pub luts: Vec<Rc<[u64; 256]>>,
    lutmap: HashMap<Rc<[u64; 256]>, u32>,
    truth: HashMap<E, Dom, BuildFx>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64) } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

impl Exprs {
    pub fn new() -> Exprs { Exprs { nodes: vec![], map: HashMap::default(), luts: vec![], lutmap: HashMap::new(), truth: HashMap::default() } }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn k(&self, e: E) -> K { self.nodes[e as usize].k }
    pub fn cst(&self, e: E) -> Option<u128> { if let K::Const(c) = self.nodes[e as usize].k { Some(c) } else { None } }
    pub fn supp(&self, e: E) -> &Supp { &self.nodes[e as usize].supp }
    fn raw(&mut self, k: K, w: u16) -> E {
        if let Some(&e) = self.map.get(&(k, w)) { return e }
        let supp = match k {
            K::Const(_) => Supp::None,
            K::Sym(s) => Supp::One(s),
            K::Lut(_, s) => Supp::One(s),
            K::Add(a, b) | K::Sub(a, b) | K::Mul(a, b) | K::UDiv(a, b) | K::URem(a, b) | K::SDiv(a, b) | K::SRem(a, b) | K::Shl(a, b) | K::LShr(a, b) | K::AShr(a, b) | K::And(a, b) | K::Or(a, b) | K::Xor(a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b) | K::Slt(a, b) | K::Sle(a, b) | K::Concat(a, b) => self.join(&[a, b]),
            K::Ite(a, b, c) => self.join(&[a, b, c]),
            K::ZExt(a) | K::SExt(a) | K::Extract(a, _) => self.nodes[a as usize].supp.clone(),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(Node { k, w, supp });
        self.map.insert((k, w), e);
        e
    }
    fn join(&self, es: &[E]) -> Supp {
        let mut cur = Supp::None;
        for e in es {
            let s = &self.nodes[*e as usize].supp;
            cur = match (&cur, s) {
                (_, Supp::None) => cur,
                (Supp::None, s) => s.clone(),
                (Supp::One(a), Supp::One(b)) if a == b => cur,
                (Supp::Many(a), Supp::Many(b)) if Rc::ptr_eq(a, b) => cur,
                (a, b) => {
                    let mut v: Vec<u32> = vec![];
                    for x in [a, b] { match x { Supp::One(q) => v.push(*q), Supp::Many(q) => v.extend_from_slice(q), _ => {} } }
                    v.sort();
                    v.dedup();
                    Supp::Many(v.into())
                }
            };
        }
        cur
    }
    pub fn c(&mut self, v: u128, w: u16) -> E { self.raw(K::Const(v & mask128(w)), w) }
    pub fn sym(&mut self, s: u32) -> E { self.raw(K::Sym(s), 8) }
    pub fn lut(&mut self, t: [u64; 256], s: u32, w: u16) -> E {
        let t = Rc::new(t);
        let id = match self.lutmap.get(&t) { Some(&i) => i, None => { let i = self.luts.len() as u32; self.luts.push(t.clone()); self.lutmap.insert(t, i); i } };
        self.raw(K::Lut(id, s), w)
    }
    pub fn tru(&mut self) -> E { self.c(1, 1) }
    pub fn fls(&mut self) -> E { self.c(0, 1) }
    fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }
    pub fn fold2(k: &K, a: u128, b: u128, w: u16) -> u128 {
        let m = mask128(w);
        (match k {
            K::Add(..) => a.wrapping_add(b), K::Sub(..) => a.wrapping_sub(b), K::Mul(..) => a.wrapping_mul(b),
            K::UDiv(..) => if b == 0 { m } else { a / b },
            K::URem(..) => if b == 0 { a } else { a % b },
            K::SDiv(..) => { let (x, y) = (Self::sx(a, w), Self::sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
            K::SRem(..) => { let (x, y) = (Self::sx(a, w), Self::sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
            K::Shl(..) => if b >= w as u128 { 0 } else { a << b },
            K::LShr(..) => if b >= w as u128 { 0 } else { a >> b },
            K::AShr(..) => { let x = Self::sx(a, w); (if b >= w as u128 { x >> 127 } else { x >> b }) as u128 }
            K::And(..) => a & b, K::Or(..) => a | b, K::Xor(..) => a ^ b,
            K::Eq(..) => (a == b) as u128, K::Ult(..) => (a < b) as u128, K::Ule(..) => (a <= b) as u128,
            K::Slt(..) => (Self::sx(a, w) < Self::sx(b, w)) as u128, K::Sle(..) => (Self::sx(a, w) <= Self::sx(b, w)) as u128,
            _ => unreachable!(),
        }) & m
    }
    pub fn not(&mut self, a: E) -> E { let o = self.tru(); self.xor(a, o) }
    pub fn and1(&mut self, a: E, b: E) -> E { self.and(a, b) }
    pub fn or1(&mut self, a: E, b: E) -> E { self.or(a, b) }

    fn ite_push(&mut self, a: E, b: E, f: &dyn Fn(&mut Exprs, E, E) -> E) -> Option<E> {
        // op(ite(c,k1,k2), k) -> ite(c, op(k1,k), op(k2,k)), likewise with nested ites of constants
        if let (K::Ite(c, x, y), Some(_)) = (self.k(a), self.cst(b)) {
            if self.const_tree(x, 40) && self.const_tree(y, 40) { let p = f(self, x, b); let q = f(self, y, b); return Some(self.ite(c, p, q)) }
        }
        if let (Some(_), K::Ite(c, x, y)) = (self.cst(a), self.k(b)) {
            if self.const_tree(x, 40) && self.const_tree(y, 40) { let p = f(self, a, x); let q = f(self, a, y); return Some(self.ite(c, p, q)) }
        }
        None
    }
    fn const_tree(&self, e: E, d: u32) -> bool { match self.k(e) { K::Const(_) => true, K::Ite(_, a, b) => d > 0 && self.const_tree(a, d - 1) && self.const_tree(b, d - 1), _ => false } }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) {
            if y == 0 { return a }
            if let Some(x) = self.cst(a) { return self.c(x.wrapping_add(y), w) }
            if let K::Add(p, q) = self.k(a) { if let Some(x) = self.cst(q) { let c = self.c(x.wrapping_add(y), w); return self.add(p, c) } }
            if let Some(r) = self.ite_push(a, b, &|s, x, y| s.add(x, y)) { return r }
        }
        let (a, b) = if self.cst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(K::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w) }
        if let Some(y) = self.cst(b) { let c = self.c(0u128.wrapping_sub(y), w); return self.add(a, c) }
        if let Some(r) = self.ite_push(a, b, &|s, x, y| s.sub(x, y)) { return r }
        self.raw(K::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) {
            if y == 0 { return b }
            if y == 1 { return a }
            if let Some(x) = self.cst(a) { return self.c(x.wrapping_mul(y), w) }
            if y.is_power_of_two() { let c = self.c(y.trailing_zeros() as u128, w); return self.shl(a, c) }
            if let Some(r) = self.ite_push(a, b, &|s, x, y| s.mul(x, y)) { return r }
        }
        let (a, b) = if self.cst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(K::Mul(a, b), w)
    }
    fn gen2(&mut self, mk: fn(E, E) -> K, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { let v = Self::fold2(&mk(a, b), x, y, w); return self.c(v, w) }
        if let Some(r) = self.ite_push(a, b, &move |s, x, y| s.gen2(mk, x, y)) { return r }
        self.raw(mk(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E { if self.cst(b) == Some(1) { return a } self.gen2(K::UDiv, a, b) }
    pub fn urem(&mut self, a: E, b: E) -> E { self.gen2(K::URem, a, b) }
    pub fn sdiv(&mut self, a: E, b: E) -> E { self.gen2(K::SDiv, a, b) }
    pub fn srem(&mut self, a: E, b: E) -> E { self.gen2(K::SRem, a, b) }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cst(b) {
            if s == 0 { return a }
            if s >= w as u128 { return self.c(0, w) }
            if self.cst(a).is_none() {
                let lo = self.extract(a, 0, w - s as u16);
                let z = self.c(0, s as u16);
                return self.concat(lo, z);
            }
        }
        self.gen2(K::Shl, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cst(b) {
            if s == 0 { return a }
            if s >= w as u128 { return self.c(0, w) }
            if self.cst(a).is_none() {
                let hi = self.extract(a, s as u16, w - s as u16);
                return self.zext(hi, w);
            }
        }
        self.gen2(K::LShr, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cst(b) {
            if s == 0 { return a }
            if s < w as u128 && self.cst(a).is_none() { let hi = self.extract(a, s as u16, w - s as u16); return self.sext(hi, w) }
        }
        self.gen2(K::AShr, a, b)
    }
    /// boundaries of the concat structure (bit positions, ascending, excluding 0 and w)
    fn bounds(&self, e: E, base: u16, out: &mut Vec<u16>, d: u32) {
        if d == 0 { return }
        match self.k(e) {
            K::Concat(h, l) => { let wl = self.w(l); self.bounds(l, base, out, d - 1); out.push(base + wl); self.bounds(h, base + wl, out, d - 1) }
            K::ZExt(x) => { self.bounds(x, base, out, d - 1); out.push(base + self.w(x)) }
            _ => {}
        }
    }
    fn piecewise(&mut self, a: E, b: E, f: &dyn Fn(&mut Exprs, E, E) -> E) -> Option<E> {
        let w = self.w(a);
        if w == 1 { return None }
        let mut bs = vec![];
        self.bounds(a, 0, &mut bs, 40);
        self.bounds(b, 0, &mut bs, 40);
        if bs.is_empty() { return None }
        bs.push(w);
        bs.sort();
        bs.dedup();
        let mut lo = 0;
        let mut r: Option<E> = None;
        for hi in bs {
            if hi == lo { continue }
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            let z = f(self, x, y);
            r = Some(match r { None => z, Some(q) => self.concat(z, q) });
            lo = hi;
        }
        r
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) {
            if y == 0 { return b }
            if y == mask128(w) { return a }
            if let Some(x) = self.cst(a) { return self.c(x & y, w) }
            if let K::And(p, q) = self.k(a) { if let Some(x) = self.cst(q) { let c = self.c(x & y, w); return self.and(p, c) } }
            // low mask -> zext(extract)
            if w > 1 && (y + 1).is_power_of_two() { let n = (y + 1).trailing_zeros() as u16; let lo = self.extract(a, 0, n); return self.zext(lo, w) }
            if let Some(r) = self.ite_push(a, b, &|s, x, y| s.and(x, y)) { return r }
        }
        if w == 1 {
            if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) { return self.fls() }
        } else if let Some(r) = self.piecewise(a, b, &|s, x, y| s.and_leaf(x, y)) { return r }
        self.and_leaf(a, b)
    }
    fn and_leaf(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) {
            if y == 0 { return b }
            if y == mask128(w) { return a }
            if let Some(x) = self.cst(a) { return self.c(x & y, w) }
        }
        let (a, b) = if self.cst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(K::And(a, b), w)
    }
    pub fn not_of(&self, a: E) -> Option<E> { if let K::Xor(p, q) = self.k(a) { if self.w(a) == 1 && self.cst(q) == Some(1) { return Some(p) } } None }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) {
            if y == 0 { return a }
            if y == mask128(w) { return b }
            if let Some(x) = self.cst(a) { return self.c(x | y, w) }
            if let Some(r) = self.ite_push(a, b, &|s, x, y| s.or(x, y)) { return r }
        }
        if w == 1 {
            if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) { return self.tru() }
        } else if let Some(r) = self.piecewise(a, b, &|s, x, y| s.or_leaf(x, y)) { return r }
        self.or_leaf(a, b)
    }
    fn or_leaf(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) {
            if y == 0 { return a }
            if y == mask128(w) { return b }
            if let Some(x) = self.cst(a) { return self.c(x | y, w) }
        }
        let (a, b) = if self.cst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(K::Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w) }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) {
            if y == 0 { return a }
            if let Some(x) = self.cst(a) { return self.c(x ^ y, w) }
            if let K::Xor(p, q) = self.k(a) { if let Some(x) = self.cst(q) { let c = self.c(x ^ y, w); return self.xor(p, c) } }
            if let Some(r) = self.ite_push(a, b, &|s, x, y| s.xor(x, y)) { return r }
            if w == 1 {
                match self.k(a) {
                    K::Ult(p, q) => return self.ule(q, p),
                    K::Ule(p, q) => return self.ult(q, p),
                    K::Slt(p, q) => return self.sle(q, p),
                    K::Sle(p, q) => return self.slt(q, p),
                    _ => {}
                }
            }
        }
        if w > 1 { if let Some(r) = self.piecewise(a, b, &|s, x, y| s.xor_leaf(x, y)) { return r } }
        self.xor_leaf(a, b)
    }
    fn xor_leaf(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w) }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cst(b) { if y == 0 { return a } if let Some(x) = self.cst(a) { return self.c(x ^ y, w) } }
        let (a, b) = if self.cst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(K::Xor(a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru() }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(y) = self.cst(b) {
            if let Some(x) = self.cst(a) { return self.c((x == y) as u128, 1) }
            if w == 1 { return if y == 1 { a } else { self.not(a) } }
            match self.k(a) {
                K::ZExt(x) => { let xw = self.w(x); if y >> xw != 0 { return self.fls() } let c = self.c(y, xw); return self.eq(x, c) }
                K::SExt(x) => { let xw = self.w(x); let t = y & mask128(xw); if (Self::sx(t, xw) as u128) & mask128(w) != y { return self.fls() } let c = self.c(t, xw); return self.eq(x, c) }
                K::Add(p, q) => if let Some(x) = self.cst(q) { let c = self.c(y.wrapping_sub(x), w); return self.eq(p, c) },
                K::Xor(p, q) => if let Some(x) = self.cst(q) { let c = self.c(y ^ x, w); return self.eq(p, c) },
                K::And(_, q) => if let Some(x) = self.cst(q) { if y & !x != 0 { return self.fls() } },
                K::Or(_, q) => if let Some(x) = self.cst(q) { if x & !y != 0 { return self.fls() } },
                K::Concat(h, l) => {
                    let (wh, wl) = (self.w(h), self.w(l));
                    let ch = self.c(y >> wl, wh);
                    let cl = self.c(y, wl);
                    let p = self.eq(h, ch);
                    let q = self.eq(l, cl);
                    return self.and(p, q);
                }
                _ => {}
            }
            if let Some(r) = self.ite_push(a, b, &|s, x, y| s.eq(x, y)) { return r }
        } else {
            match (self.k(a), self.k(b)) {
                (K::Concat(h1, l1), K::Concat(h2, l2)) if self.w(l1) == self.w(l2) => { let p = self.eq(h1, h2); let q = self.eq(l1, l2); return self.and(p, q) }
                (K::ZExt(x), K::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                _ => {}
            }
        }
        let (a, b) = if self.cst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(K::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls() }
        let w = self.w(a);
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (None, Some(y)) => {
                if y == 0 { return self.fls() }
                if y == 1 { let z = self.c(0, w); return self.eq(a, z) }
                if let K::ZExt(x) = self.k(a) { let xw = self.w(x); if y > mask128(xw) { return self.tru() } let c = self.c(y, xw); return self.ult(x, c) }
            }
            (Some(x), None) => {
                if x == mask128(w) { return self.fls() }
                if x == 0 { let z = self.c(0, w); let q = self.eq(b, z); return self.not(q) }
                if let K::ZExt(y) = self.k(b) { let yw = self.w(y); if x >= mask128(yw) { return self.fls() } let c = self.c(x, yw); return self.ult(c, y) }
            }
            _ => if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) { if self.w(x) == self.w(y) { return self.ult(x, y) } },
        }
        if let Some(r) = self.ite_push(a, b, &|s, x, y| s.ult(x, y)) { return r }
        self.raw(K::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru() }
        let w = self.w(a);
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.c((x <= y) as u128, 1),
            (None, Some(y)) => { if y == mask128(w) { return self.tru() } let c = self.c(y + 1, w); return self.ult(a, c) }
            (Some(x), None) => { if x == 0 { return self.tru() } let c = self.c(x - 1, w); return self.ult(c, b) }
            _ => if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) { if self.w(x) == self.w(y) { return self.ule(x, y) } },
        }
        self.raw(K::Ule(a, b), 1)
    }
    fn scmp(&mut self, a: E, b: E, strict: bool) -> E {
        if a == b { return self.c(!strict as u128, 1) }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { let (x, y) = (Self::sx(x, w), Self::sx(y, w)); return self.c((if strict { x < y } else { x <= y }) as u128, 1) }
        // non-negative on both sides: unsigned
        if self.nonneg(a) && self.nonneg(b) { return if strict { self.ult(a, b) } else { self.ule(a, b) } }
        if self.nonneg(a) { if let Some(y) = self.cst(b) { if y >> (w - 1) & 1 == 1 { return self.fls() } } }
        if self.nonneg(b) { if let Some(x) = self.cst(a) { if x >> (w - 1) & 1 == 1 { return self.tru() } } }
        if let Some(r) = self.ite_push(a, b, &move |s, x, y| s.scmp(x, y, strict)) { return r }
        self.raw(if strict { K::Slt(a, b) } else { K::Sle(a, b) }, 1)
    }
    fn nonneg(&self, e: E) -> bool { match self.k(e) { K::ZExt(_) => true, K::Const(c) => c >> (self.w(e) - 1) & 1 == 0, _ => false } }
    pub fn slt(&mut self, a: E, b: E) -> E { self.scmp(a, b, true) }
    pub fn sle(&mut self, a: E, b: E) -> E { self.scmp(a, b, false) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a }
        if let Some(x) = self.cst(c) { return if x == 1 { a } else { b } }
        let w = self.w(a);
        if let Some(n) = self.not_of(c) { return self.ite(n, b, a) }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(_), None) => { let n = self.not(c); return self.and(n, b) }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(_)) => { let n = self.not(c); return self.or(n, a) }
                _ => {}
            }
        }
        self.raw(K::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a }
        match self.k(a) {
            K::Const(c) => return self.c(c, w),
            K::ZExt(x) => return self.zext(x, w),
            K::Ite(c, x, y) if self.const_tree(x, 40) && self.const_tree(y, 40) => { let p = self.zext(x, w); let q = self.zext(y, w); return self.ite(c, p, q) }
            _ => {}
        }
        self.raw(K::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a }
        match self.k(a) {
            K::Const(c) => return self.c(Self::sx(c, aw) as u128, w),
            K::ZExt(x) => return self.zext(x, w),
            K::SExt(x) => return self.sext(x, w),
            K::Ite(c, x, y) if self.const_tree(x, 40) && self.const_tree(y, 40) => { let p = self.sext(x, w); let q = self.sext(y, w); return self.ite(c, p, q) }
            _ => {}
        }
        self.raw(K::SExt(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u16, n: u16) -> E {
        let w = self.w(a);
        if lo == 0 && n == w { return a }
        debug_assert!(lo + n <= w);
        match self.k(a) {
            K::Const(c) => return self.c(c >> lo, n),
            K::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.extract(h, lo - wl, n) }
                if lo + n <= wl { return self.extract(l, lo, n) }
                let x = self.extract(h, 0, lo + n - wl);
                let y = self.extract(l, lo, wl - lo);
                return self.concat(x, y);
            }
            K::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(0, n) }
                if lo + n <= xw { return self.extract(x, lo, n) }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, n);
            }
            K::SExt(x) => { let xw = self.w(x); if lo + n <= xw { return self.extract(x, lo, n) } if lo == 0 { return self.sext(x, n) } }
            K::Extract(x, l2) => return self.extract(x, lo + l2, n),
            K::Ite(c, x, y) if self.const_tree(x, 40) && self.const_tree(y, 40) => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return self.ite(c, p, q) }
            K::And(x, y) => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return self.and(p, q) }
            K::Or(x, y) => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return self.or(p, q) }
            K::Xor(x, y) => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return self.xor(p, q) }
            K::Add(x, y) if lo == 0 => { let p = self.extract(x, 0, n); let q = self.extract(y, 0, n); return self.add(p, q) }
            K::Sub(x, y) if lo == 0 => { let p = self.extract(x, 0, n); let q = self.extract(y, 0, n); return self.sub(p, q) }
            K::Lut(t, s) => { let mut v = *self.luts[t as usize]; for x in v.iter_mut() { *x = (*x >> lo) & crate::ir::mask(n) } return self.lut(v, s, n) }
            _ => {}
        }
        self.raw(K::Extract(a, lo), n)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.cst(h), self.cst(l)) { return self.c(x << wl | y, wh + wl) }
        if self.cst(h) == Some(0) { return self.zext(l, wh + wl) }
        match (self.k(h), self.k(l)) {
            (K::Extract(x, p), K::Extract(y, q)) if x == y && q + wl == p => return self.extract(x, q, wh + wl),
            (K::Extract(x, p), _) if x == l && p == wl && self.w(x) == wl => {}
            (K::ZExt(x), _) => { let q = self.concat(x, l); return self.zext(q, wh + wl) }
            // concat(concat(a,b),c) -> concat(a, concat(b,c)) when b,c merge
            (K::Concat(a, b), _) => {
                if let (Some(x), Some(y)) = (self.cst(b), self.cst(l)) { let wb = self.w(b); let c = self.c(x << wl | y, wb + wl); return self.concat(a, c) }
                if let (K::Extract(x, p), K::Extract(y, q)) = (self.k(b), self.k(l)) { if x == y && q + wl == p { let wb = self.w(b); let m = self.extract(x, q, wb + wl); return self.concat(a, m) } }
            }
            _ => {}
        }
        // extract high part adjoining low part equal to the low bits of the same expression
        if let K::Extract(x, p) = self.k(h) { if p == wl { let lo = self.extract(x, 0, wl); if lo == l { return self.extract(x, 0, wh + wl) } } }
        self.raw(K::Concat(h, l), wh + wl)
    }

    /// Evaluate under an assignment of symbols
    pub fn eval(&self, e: E, f: &dyn Fn(u32) -> u8, memo: &mut HashMap<E, u128, BuildFx>) -> u128 {
        match self.k(e) { K::Const(c) => return c, K::Sym(s) => return f(s) as u128, K::Lut(t, s) => return self.luts[t as usize][f(s) as usize] as u128, _ => {} }
        if let Some(v) = memo.get(&e) { return *v }
        let k = self.k(e);
        let w = self.w(e);
        let r = match k {
            K::Ite(c, a, b) => if self.eval(c, f, memo) == 1 { self.eval(a, f, memo) } else { self.eval(b, f, memo) },
            K::ZExt(a) => self.eval(a, f, memo),
            K::SExt(a) => Self::sx(self.eval(a, f, memo), self.w(a)) as u128 & mask128(w),
            K::Extract(a, lo) => (self.eval(a, f, memo) >> lo) & mask128(w),
            K::Concat(a, b) => self.eval(a, f, memo) << self.w(b) | self.eval(b, f, memo),
            K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b) | K::Slt(a, b) | K::Sle(a, b) => { let x = self.eval(a, f, memo); let y = self.eval(b, f, memo); Self::fold2(&k, x, y, self.w(a)) & 1 }
            K::And(a, b) if w == 1 => if self.eval(a, f, memo) == 0 { 0 } else { self.eval(b, f, memo) },
            K::Or(a, b) if w == 1 => if self.eval(a, f, memo) == 1 { 1 } else { self.eval(b, f, memo) },
            K::Add(a, b) | K::Sub(a, b) | K::Mul(a, b) | K::UDiv(a, b) | K::URem(a, b) | K::SDiv(a, b) | K::SRem(a, b) | K::Shl(a, b) | K::LShr(a, b) | K::AShr(a, b) | K::And(a, b) | K::Or(a, b) | K::Xor(a, b) => { let x = self.eval(a, f, memo); let y = self.eval(b, f, memo); Self::fold2(&k, x, y, w) }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    pub fn eval1(&self, e: E, v: u8) -> u128 { let mut m = HashMap::default(); self.eval(e, &|_| v, &mut m) }
    /// truth table of a unary 1-bit expression
    pub fn truth(&mut self, e: E) -> Dom {
        if let Some(d) = self.truth.get(&e) { return *d }
        let d = match self.k(e) {
            K::Xor(p, q) if self.cst(q) == Some(1) => dom_not(&self.truth(p)),
            K::And(a, b) => { let x = self.truth_or_const(a); let y = self.truth_or_const(b); dom_and(&x, &y) }
            K::Or(a, b) => { let x = dom_not(&self.truth_or_const(a)); let y = dom_not(&self.truth_or_const(b)); dom_not(&dom_and(&x, &y)) }
            _ => { let mut d = [0u64; 4]; for v in 0..=255u8 { if self.eval1(e, v) == 1 { dom_set(&mut d, v) } } d }
        };
        self.truth.insert(e, d);
        d
    }
    fn truth_or_const(&mut self, e: E) -> Dom { match self.cst(e) { Some(1) => FULL, Some(_) => [0; 4], None => self.truth(e) } }
    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 { return "..".into() }
        match self.k(e) { K::Const(c) => format!("{:#x}", c), K::Sym(s) => format!("s{}", s),
            K::Ite(a, b, c) => format!("ite({},{},{})", self.show(a, d - 1), self.show(b, d - 1), self.show(c, d - 1)),
            K::ZExt(a) => format!("z{}({})", self.w(e), self.show(a, d - 1)), K::SExt(a) => format!("sx{}({})", self.w(e), self.show(a, d - 1)),
            K::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d - 1), lo, self.w(e)),
            K::Lut(t, s) => format!("lut{}[s{}]", t, s),
            K::Add(a, b) => format!("({}+{})", self.show(a, d - 1), self.show(b, d - 1)),
            K::Sub(a, b) => format!("({}-{})", self.show(a, d - 1), self.show(b, d - 1)),
            K::And(a, b) => format!("({}&{})", self.show(a, d - 1), self.show(b, d - 1)),
            K::Or(a, b) => format!("({}|{})", self.show(a, d - 1), self.show(b, d - 1)),
            K::Xor(a, b) => format!("({}^{})", self.show(a, d - 1), self.show(b, d - 1)),
            K::Eq(a, b) => format!("({}=={})", self.show(a, d - 1), self.show(b, d - 1)),
            K::Ult(a, b) => format!("({}<{})", self.show(a, d - 1), self.show(b, d - 1)),
            K::Ule(a, b) => format!("({}<={})", self.show(a, d - 1), self.show(b, d - 1)),
            K::Concat(a, b) => format!("({}@{})", self.show(a, d - 1), self.show(b, d - 1)),
            k => format!("{:?}", k) }
    }
}
