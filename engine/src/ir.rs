//! Textual LLVM IR parser (LLVM 23 opaque-pointer syntax, as written by rustc --emit=llvm-ir).
//! Functions are indexed up front and decoded lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match (*w as u64 + 7) / 8 { 1 => 1, 2 => 2, 3 | 4 => 4, 5..=8 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.bits() as u64 / 8).next_power_of_two().max(1),
        }
    }
    /// allocation size (rounded up to alignment)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let s = (*w as u64 + 7) / 8; let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o; }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * ((t.bits() as u64 + 7) / 8),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("field_ty of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {:?}", self) }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32) }
    pub fn is_vec(&self) -> bool { matches!(self, Ty::Vector(..)) }
}

/// Run-time and constant values. Integers up to 64 bits (and pointers, floats as bits) are `I`
/// and always kept truncated to their width.
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    /// symbolic expression
    S(u32),
    /// concrete integer wider than 64 bits
    W(Rc<u128>),
    /// struct / array / vector value
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op { R(u32), C(Val) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Same, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc, BitcastVec }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u16, dst: u32, a: Op, b: Op },
    VBin { op: BinOp, w: u16, dst: u32, a: Op, b: Op },
    ICmp { p: Pred, w: u16, dst: u32, a: Op, b: Op },
    VICmp { p: Pred, w: u16, dst: u32, a: Op, b: Op },
    FCmp { p: Rc<str>, ty: Ty, dst: u32, a: Op, b: Op },
    FNeg { ty: Ty, dst: u32, a: Op },
    Cast { k: Cast, from: Ty, to: Ty, dst: u32, a: Op },
    Load { ty: Ty, sz: u8, dst: u32, p: Op },
    Store { ty: Ty, sz: u8, v: Op, p: Op },
    Gep { dst: u32, p: Op, off: u64, idx: Rc<Vec<(Op, u16, u64)>> },
    Alloca { dst: u32, size: u64, n: Op, align: u64 },
    Select { w: u16, dst: u32, c: Op, a: Op, b: Op, vec: bool },
    Call { dst: u32, ret: Ty, f: Op, args: Rc<Vec<(Ty, Op)>>, normal: Option<u32> },
    Asm { dst: u32, ret: Ty },
    Extract { dst: u32, a: Op, idx: Rc<Vec<u32>> },
    Insert { dst: u32, a: Op, v: Op, idx: Rc<Vec<u32>>, ty: Ty },
    ExtElem { dst: u32, a: Op, i: Op },
    InsElem { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, mask: Rc<Vec<i32>> },
    Rmw { op: Rc<str>, w: u16, dst: u32, p: Op, v: Op },
    CmpXchg { w: u16, dst: u32, p: Op, c: Op, n: Op },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u16, def: u32, cases: Rc<Vec<(u128, u32)>> },
    Ret { v: Option<Op> },
    Unreachable,
    Nop,
    /// something executable the parser does not model; reaching it is an engine error
    Bad(Rc<str>),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dst, (pred block, value)
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of "define ... }" in text
    pub params_hdr: (usize, usize),
}

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub align: u64, pub constant: bool, pub range: (usize, usize), pub external: bool }

pub struct Module {
    pub text: Vec<u8>,
    pub named_types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<FuncDecl>,
    /// symbol name -> address
    pub sym: HashMap<String, u64>,
    pub func_by_addr: HashMap<u64, usize>,
}

pub const fn obj_addr(id: u64) -> u64 { id << 32 }

pub struct P<'a> { pub s: &'a [u8], pub i: usize, pub end: usize, m: &'a Module }

fn is_ident(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    pub fn new(m: &'a Module, a: usize, b: usize) -> P<'a> { P { s: &m.text, i: a, end: b, m } }
    fn ws(&mut self) {
        while self.i < self.end {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1 } else { break }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.end { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected {:?}", c as char)) } }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 120).min(self.end);
        panic!("IR parse error: {} at ...{}<HERE>{}", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i.min(b)..b]));
    }
    /// bare word
    fn word(&mut self) -> &'a str {
        self.ws();
        let a = self.i;
        while self.i < self.end && is_ident(self.s[self.i]) { self.i += 1 }
        // SAFETY of utf8: idents are ascii
        let s: &'a [u8] = unsafe { std::slice::from_raw_parts(self.s.as_ptr().add(a), self.i - a) };
        std::str::from_utf8(s).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let j = { self.ws(); self.i }; let w = self.word(); self.i = j; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    /// name after % or @, possibly quoted
    fn name(&mut self) -> String {
        if self.i < self.end && self.s[self.i] == b'"' {
            self.i += 1;
            let a = self.i;
            while self.s[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
            self.i += 1;
            r
        } else { let a = self.i; while self.i < self.end && is_ident(self.s[self.i]) { self.i += 1 } String::from_utf8_lossy(&self.s[a..self.i]).into_owned() }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => { d -= 1; if d == 0 { return } }
                b'"' => { while self.s[self.i] != b'"' { self.i += 1 } self.i += 1 }
                _ => {}
            }
        }
    }
    fn uint(&mut self) -> u64 { self.ws(); let mut v = 0u64; while self.i < self.end && self.s[self.i].is_ascii_digit() { v = v * 10 + (self.s[self.i] - b'0') as u64; self.i += 1 } v }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        let t = match c {
            b'{' => { self.i += 1; let f = self.tylist(b'}'); Ty::Struct(Rc::new(f), false) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let f = self.tylist(b'}'); self.expect(b'>'); Ty::Struct(Rc::new(f), true) }
                else { let n = self.uint(); if self.word() != "x" { self.fail("vector x") } let t = self.ty(); self.expect(b'>'); Ty::Vector(n, Rc::new(t)) }
            }
            b'[' => { self.i += 1; let n = self.uint(); if self.word() != "x" { self.fail("array x") } let t = self.ty(); self.expect(b']'); Ty::Array(n, Rc::new(t)) }
            b'%' => { self.i += 1; let n = self.name(); self.m.named_types.get(&n).cloned().unwrap_or(Ty::Other) }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void, "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.ws(); self.skip_parens(); } Ty::Ptr }
                    "float" => Ty::F32, "double" => Ty::F64,
                    "label" | "token" | "metadata" | "opaque" | "x86_fp80" | "fp128" | "half" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
                    _ => self.fail(&format!("type expected, got {:?}", w)),
                }
            }
        };
        // function type "ret (args)"
        t
    }
    fn tylist(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(close) { return v }
        loop { v.push(self.ty()); if self.eat(b',') { continue } self.expect(close); return v }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => Val::A(Rc::new((0..t.nfields()).map(|i| P::zero(&t.field_ty(i))).collect())),
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            _ => Val::I(0),
        }
    }
    /// Constant of given type
    pub fn cval(&mut self, t: &Ty) -> Val {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; let n = self.name(); return Val::I(*self.m.sym.get(&n).unwrap_or_else(|| panic!("unknown symbol @{}", n))) }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { v.push(Val::I(b'\\' as u64)); self.i += 2 }
                    else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(Val::I(u64::from_str_radix(h, 16).unwrap()));
                        self.i += 3;
                    } else { v.push(Val::I(self.s[self.i] as u64)); self.i += 1 }
                }
                self.i += 1;
                return Val::A(Rc::new(v));
            }
            b'{' => { self.i += 1; return self.caggr(b'}') }
            b'[' => { self.i += 1; return self.caggr(b']') }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let v = self.caggr(b'}'); self.expect(b'>'); return v }
                return self.caggr(b'>');
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let a = self.i;
                self.i += 1;
                while self.i < self.end && (is_ident(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1 }
                let w = std::str::from_utf8(&self.s[a..self.i]).unwrap();
                return match t {
                    // spelled out specials, and the bits of a number
                    Ty::F64 | Ty::F32 if w.contains("inf") => { let v = if w.starts_with('-') { f64::NEG_INFINITY } else { f64::INFINITY }; Val::I(if matches!(t, Ty::F32) { (v as f32).to_bits() as u64 } else { v.to_bits() }) }
                    Ty::F64 | Ty::F32 if w.contains("nan") => { let v = if w.starts_with('-') { -f64::NAN } else { f64::NAN }; Val::I(if matches!(t, Ty::F32) { (v as f32).to_bits() as u64 } else { v.to_bits() }) }
                    Ty::F64 => { if let Some(h) = w.strip_prefix("0x") { Val::I(u64::from_str_radix(h, 16).unwrap()) } else { Val::I(w.parse::<f64>().unwrap().to_bits()) } }
                    Ty::F32 => { if let Some(h) = w.strip_prefix("0x") { Val::I((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64) } else { Val::I(w.parse::<f32>().unwrap().to_bits() as u64) } }
                    Ty::Int(bits) => {
                        let v: u128 = if w.starts_with('-') { w.parse::<i128>().unwrap() as u128 } else { w.parse::<u128>().unwrap() };
                        mkint(v, *bits)
                    }
                    _ => self.fail("number for odd type"),
                };
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => Val::I(1),
            "false" => Val::I(0),
            "null" | "none" => Val::I(0),
            "undef" | "poison" | "zeroinitializer" => P::zero(t),
            "splat" => { self.expect(b'('); let et = self.ty(); let v = self.cval(&et); self.expect(b')'); Val::A(Rc::new(vec![v; t.nfields()])) }
            "getelementptr" => {
                loop { match self.peek() { b'(' => break, _ => { let w = self.word(); if w == "inrange" { self.ws(); self.skip_parens() } } } }
                self.expect(b'(');
                let st = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.cval(&pt);
                let mut addr = match base { Val::I(a) => a, _ => self.fail("gep const base") };
                let mut cur = st;
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let iv = match self.cval(&it) { Val::I(v) => v, _ => self.fail("gep const idx") };
                    let iv = sext(iv, it.bits());
                    if first { addr = addr.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false }
                    else { addr = addr.wrapping_add(cur.field_off(iv as usize)); cur = cur.field_ty(iv as usize) }
                }
                self.expect(b')');
                Val::I(addr)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.expect(b'(');
                let ft = self.ty();
                let v = self.cval(&ft);
                if self.word() != "to" { self.fail("cast to") }
                let tt = self.ty();
                self.expect(b')');
                match (v, &tt) { (Val::I(v), Ty::Int(b)) => mkint(v as u128, *b), (v, _) => v }
            }
            "sub" | "add" | "xor" | "mul" => {
                let k = w;
                while self.peek() != b'(' { self.word(); }
                self.expect(b'(');
                let ft = self.ty();
                let a = self.cval(&ft);
                self.expect(b',');
                let ft2 = self.ty();
                let b = self.cval(&ft2);
                self.expect(b')');
                match (a, b) {
                    (Val::I(a), Val::I(b)) => mkint(match k { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b } as u128, ft.bits()),
                    _ => self.fail("const expr"),
                }
            }
            "dso_local_equivalent" | "no_cfi" => self.cval(t),
            // the bits of a floating point constant
            _ if w.starts_with("f0x") => match u64::from_str_radix(&w[3..], 16) { Ok(b) => Val::I(b), Err(_) => self.fail("float bits") },
            // IEEE special spellings
            "inf" | "nan" => match t { Ty::F32 => Val::I((if w == "inf" { f32::INFINITY } else { f32::NAN }).to_bits() as u64), _ => Val::I((if w == "inf" { f64::INFINITY } else { f64::NAN }).to_bits()) },
            _ => self.fail(&format!("constant expected, got {:?}", w)),
        }
    }
    fn caggr(&mut self, close: u8) -> Val {
        let mut v = vec![];
        if self.eat(close) { return Val::A(Rc::new(v)) }
        loop {
            let t = self.ty();
            v.push(self.cval(&t));
            if self.eat(b',') { continue }
            self.expect(close);
            return Val::A(Rc::new(v));
        }
    }
}

pub fn sext(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn mask(w: u16) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn mask128(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn mkint(v: u128, w: u16) -> Val { if w > 64 { Val::W(Rc::new(v & mask128(w))) } else { Val::I(v as u64 & mask(w)) } }

struct FP<'a> { p: P<'a>, regs: HashMap<String, u32>, blocks: HashMap<String, u32> }

impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 { let l = self.regs.len() as u32; *self.regs.entry(n).or_insert(l) }
    fn val(&mut self, t: &Ty) -> Op {
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name(); Op::R(self.reg(n)) } else {
            if *t == Ty::Other { // metadata operand
                let c = self.p.peek();
                if c == b'!' { self.p.i += 1; if self.p.peek() == b'{' { self.p.skip_parens() } else { let _ = self.p.name(); if self.p.i < self.p.end && self.p.s[self.p.i] == b'(' { self.p.skip_parens() } } return Op::C(Val::I(0)) }
            }
            Op::C(self.p.cval(t))
        }
    }
    fn tv(&mut self) -> (Ty, Op) { let t = self.p.ty(); let v = self.val(&t); (t, v) }
    /// type, skipping parameter attributes, then value
    fn arg(&mut self) -> (Ty, Op) {
        let t = self.p.ty();
        self.attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn attrs(&mut self) {
        loop {
            let c = self.p.peek();
            if !(c.is_ascii_alphabetic() || c == b'"') { return }
            if c == b'c' && self.p.s[self.p.i + 1] == b'"' { return }
            if c == b'"' { self.p.i += 1; while self.p.s[self.p.i] != b'"' { self.p.i += 1 } self.p.i += 1; if self.p.i < self.p.end && self.p.s[self.p.i] == b'=' { self.p.i += 1; self.attrs_str() } continue }
            let j = self.p.i;
            let w = self.p.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "none" | "asm" | "bitcast" | "sub" | "add" | "xor" | "trunc" => { self.p.i = j; return }
                "align" => { if self.p.peek() == b'(' { self.p.skip_parens() } else { self.p.uint(); } }
                _ => { if self.p.i < self.p.end && self.p.s[self.p.i] == b'(' { self.p.skip_parens() } }
            }
        }
    }
    fn attrs_str(&mut self) { if self.p.peek() == b'"' { self.p.i += 1; while self.p.s[self.p.i] != b'"' { self.p.i += 1 } self.p.i += 1 } }
    fn label(&mut self) -> u32 {
        if self.p.peek_word() == "label" { self.p.word(); }
        self.p.expect(b'%');
        let n = self.p.name();
        *self.blocks.get(&n).unwrap_or_else(|| panic!("unknown label {}", n))
    }
    fn inst(&mut self) -> Option<Result<Inst, (u32, Vec<(u32, Op)>)>> {
        let mut dst = u32::MAX;
        let j = self.p.i;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            self.p.expect(b'=');
            dst = self.reg(n);
        } else if self.p.peek() == b'#' { return None }
        let _ = j;
        let mut w = self.p.word();
        if matches!(w, "tail" | "musttail" | "notail") { w = self.p.word() }
        use Inst::*;
        let binop = match w {
            "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem), "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), "fadd" => Some(BinOp::FAdd), "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul), "fdiv" => Some(BinOp::FDiv), "frem" => Some(BinOp::FRem), _ => None,
        };
        if let Some(op) = binop {
            self.flags();
            let (t, a) = self.tv();
            self.p.expect(b',');
            let b = self.val(&t);
            return Some(Ok(match &t { Ty::Vector(_, e) => VBin { op, w: e.bits(), dst, a, b }, _ => Bin { op, w: t.bits(), dst, a, b } }));
        }
        let cast = match w {
            "trunc" => Some(self::Cast::Trunc), "zext" => Some(self::Cast::ZExt), "sext" => Some(self::Cast::SExt), "ptrtoint" => Some(self::Cast::ZExt), "ptrtoaddr" => Some(self::Cast::ZExt), "inttoptr" => Some(self::Cast::ZExt),
            "bitcast" => Some(self::Cast::Same), "uitofp" => Some(self::Cast::UiToFp), "sitofp" => Some(self::Cast::SiToFp), "fptoui" => Some(self::Cast::FpToUi), "fptosi" => Some(self::Cast::FpToSi),
            "fpext" => Some(self::Cast::FpExt), "fptrunc" => Some(self::Cast::FpTrunc), "addrspacecast" => Some(self::Cast::Same), _ => None,
        };
        if let Some(mut k) = cast {
            self.flags();
            let (from, a) = self.tv();
            if self.p.word() != "to" { self.p.fail("cast to") }
            let to = self.p.ty();
            if k == self::Cast::Same && (from.is_vec() || to.is_vec()) { k = self::Cast::BitcastVec }
            if k == self::Cast::ZExt && from.is_scalar() && to.is_scalar() && from.bits() >= to.bits() { k = if from.bits() == to.bits() { self::Cast::Same } else { self::Cast::Trunc } }
            return Some(Ok(Cast { k, from, to, dst, a }));
        }
        Some(Ok(match w {
            "ret" => { let t = self.p.ty(); if t == Ty::Void { Ret { v: None } } else { let v = self.val(&t); Ret { v: Some(v) } } }
            "br" => {
                if self.p.peek_word() == "label" { let t = self.label(); Br { t } }
                else { let (_, c) = self.tv(); self.p.expect(b','); let t = self.label(); self.p.expect(b','); let f = self.label(); CondBr { c, t, f } }
            }
            "switch" => {
                let (t, v) = self.tv();
                self.p.expect(b',');
                let def = self.label();
                self.p.expect(b'[');
                let mut cases = vec![];
                while !self.p.eat(b']') {
                    let ct = self.p.ty();
                    let c = match self.p.cval(&ct) { Val::I(v) => v as u128, Val::W(v) => *v, _ => panic!() };
                    self.p.expect(b',');
                    cases.push((c, self.label()));
                }
                Switch { v, w: t.bits(), def, cases: Rc::new(cases) }
            }
            "unreachable" => Unreachable,
            "phi" => {
                self.flags();
                let t = self.p.ty();
                let mut v = vec![];
                loop {
                    self.p.expect(b'[');
                    let x = self.val(&t);
                    self.p.expect(b',');
                    self.p.expect(b'%');
                    let n = self.p.name();
                    self.p.expect(b']');
                    let b = self.blocks[&n];
                    v.push((b, x));
                    if !(self.p.peek() == b',' && { let k = self.p.i; self.p.i += 1; let r = self.p.peek() == b'['; self.p.i = k; r }) { break }
                    self.p.expect(b',');
                }
                return Some(Err((dst, v)));
            }
            "icmp" => {
                let mut pw = self.p.word();
                while pw == "samesign" { pw = self.p.word() }
                let p = match pw { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.p.fail("icmp pred") };
                let (t, a) = self.tv();
                self.p.expect(b',');
                let b = self.val(&t);
                match &t { Ty::Vector(_, e) => VICmp { p, w: e.bits(), dst, a, b }, _ => ICmp { p, w: t.bits(), dst, a, b } }
            }
            "fcmp" => {
                self.flags();
                let p: Rc<str> = { // flags() consumed only fast-math words
                    self.p.word().into()
                };
                let (ty, a) = self.tv();
                self.p.expect(b',');
                let b = self.val(&ty);
                FCmp { p, ty, dst, a, b }
            }
            "fneg" => { self.flags(); let (ty, a) = self.tv(); FNeg { ty, dst, a } }
            "load" => {
                loop { let w = self.p.peek_word(); if w == "atomic" || w == "volatile" { self.p.word(); } else { break } }
                let ty = self.p.ty();
                self.p.expect(b',');
                let (_, p) = self.tv();
                let sz = scalar_sz(&ty);
                Load { ty, sz, dst, p }
            }
            "store" => {
                loop { let w = self.p.peek_word(); if w == "atomic" || w == "volatile" { self.p.word(); } else { break } }
                let (ty, v) = self.tv();
                self.p.expect(b',');
                let (_, p) = self.tv();
                let sz = scalar_sz(&ty);
                Store { ty, sz, v, p }
            }
            "fence" => Nop,
            "getelementptr" => {
                self.flags();
                let st = self.p.ty();
                self.p.expect(b',');
                let (pt, p) = self.tv();
                if pt.is_vec() { return Some(Ok(Bad("vector gep".into()))) }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = st;
                let mut first = true;
                while self.p.peek() == b',' {
                    let k = self.p.i;
                    self.p.i += 1;
                    if self.p.peek() == b'!' { self.p.i = k; break }
                    let (it, iv) = self.tv();
                    let scale;
                    if first { scale = cur.size(); first = false }
                    else {
                        match &cur {
                            Ty::Struct(..) => {
                                let n = match &iv { Op::C(Val::I(n)) => *n as usize, _ => self.p.fail("struct gep idx") };
                                off = off.wrapping_add(cur.field_off(n));
                                cur = cur.field_ty(n);
                                continue;
                            }
                            _ => { let e = cur.field_ty(0); scale = e.size(); cur = e }
                        }
                    }
                    match &iv {
                        Op::C(Val::I(n)) => off = off.wrapping_add((sext(*n, it.bits()) as u64).wrapping_mul(scale)),
                        _ => idx.push((iv, it.bits(), scale)),
                    }
                }
                Gep { dst, p, off, idx: Rc::new(idx) }
            }
            "alloca" => {
                let ty = self.p.ty();
                let mut n = Op::C(Val::I(1));
                let mut align = ty.align();
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' { break }
                    if self.p.peek_word() == "align" { self.p.word(); align = self.p.uint() }
                    else if self.p.peek_word() == "addrspace" { break }
                    else { let (_, v) = self.tv(); n = v }
                }
                Alloca { dst, size: ty.size(), n, align }
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tv();
                self.p.expect(b',');
                let (t, a) = self.tv();
                self.p.expect(b',');
                let (_, b) = self.tv();
                let w = match &t { Ty::Vector(_, e) => e.bits(), t if t.is_scalar() => t.bits(), _ => 0 };
                Select { w, dst, c, a, b, vec: ct.is_vec() }
            }
            "call" | "invoke" => {
                // fast-math flags, cconv, ret attrs
                loop {
                    let c = self.p.peek();
                    if !c.is_ascii_alphabetic() { break }
                    let k = self.p.i;
                    let w = self.p.word();
                    let isty = matches!(w, "void" | "ptr" | "float" | "double" | "label" | "token" | "metadata" | "x86_fp80" | "half" | "fp128") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                    if isty { self.p.i = k; break }
                    if w == "align" { if self.p.peek() == b'(' { self.p.skip_parens() } else { self.p.uint(); } }
                    else if self.p.i < self.p.end && self.p.s[self.p.i] == b'(' { self.p.skip_parens() }
                }
                let ret = self.p.ty();
                if self.p.peek() == b'(' { self.p.skip_parens() } // varargs function type
                if self.p.peek_word() == "asm" { return Some(Ok(Asm { dst, ret })) }
                let f = self.val(&Ty::Ptr);
                self.p.expect(b'(');
                let mut args = vec![];
                if !self.p.eat(b')') {
                    loop { args.push(self.arg()); if self.p.eat(b',') { continue } self.p.expect(b')'); break }
                }
                let mut normal = None;
                if w == "invoke" {
                    // skip attributes up to "to label"
                    loop {
                        let c = self.p.peek();
                        if c == b'#' { self.p.i += 1; self.p.uint(); continue }
                        if c == b'[' { self.p.skip_parens(); continue }
                        let w = self.p.word();
                        if w == "to" { break }
                        if self.p.i < self.p.end && self.p.s[self.p.i] == b'(' { self.p.skip_parens() }
                        if w.is_empty() { self.p.fail("invoke to") }
                    }
                    normal = Some(self.label());
                }
                Call { dst, ret, f, args: Rc::new(args), normal }
            }
            "extractvalue" => { let (_, a) = self.tv(); let idx = self.idxs(); Extract { dst, a, idx: Rc::new(idx) } }
            "insertvalue" => { let (ty, a) = self.tv(); self.p.expect(b','); let (_, v) = self.tv(); let idx = self.idxs(); Insert { dst, a, v, idx: Rc::new(idx), ty } }
            "extractelement" => { let (_, a) = self.tv(); self.p.expect(b','); let (_, i) = self.tv(); ExtElem { dst, a, i } }
            "insertelement" => { let (_, a) = self.tv(); self.p.expect(b','); let (_, v) = self.tv(); self.p.expect(b','); let (_, i) = self.tv(); InsElem { dst, a, v, i } }
            "shufflevector" => {
                let (_, a) = self.tv();
                self.p.expect(b',');
                let (_, b) = self.tv();
                self.p.expect(b',');
                let mt = self.p.ty();
                let m = match self.p.cval(&mt) { Val::A(v) => v.iter().map(|x| match x { Val::I(n) => *n as i32, _ => panic!() }).collect(), _ => panic!() };
                Shuffle { dst, a, b, mask: Rc::new(m) }
            }
            "freeze" => { let (t, a) = self.tv(); Cast { k: self::Cast::Same, from: t.clone(), to: t, dst, a } }
            "atomicrmw" => {
                if self.p.peek_word() == "volatile" { self.p.word(); }
                let op: Rc<str> = self.p.word().into();
                let (_, p) = self.tv();
                self.p.expect(b',');
                let (t, v) = self.tv();
                Rmw { op, w: t.bits(), dst, p, v }
            }
            "cmpxchg" => {
                loop { let w = self.p.peek_word(); if w == "weak" || w == "volatile" { self.p.word(); } else { break } }
                let (_, p) = self.tv();
                self.p.expect(b',');
                let (t, c) = self.tv();
                self.p.expect(b',');
                let (_, n) = self.tv();
                CmpXchg { w: t.bits(), dst, p, c, n }
            }
            "landingpad" | "resume" | "cleanupret" => Bad("unwind path".into()),
            _ => Bad(format!("opcode {}", w).into()),
        }))
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        loop {
            if self.p.peek() != b',' { break }
            let k = self.p.i;
            self.p.i += 1;
            if !self.p.peek().is_ascii_digit() { self.p.i = k; break }
            v.push(self.p.uint() as u32);
        }
        v
    }
    fn flags(&mut self) {
        loop {
            let w = self.p.peek_word();
            match w {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => { self.p.word(); }
                "inrange" => { self.p.word(); self.p.ws(); self.p.skip_parens(); }
                _ => break,
            }
        }
    }
}

fn scalar_sz(t: &Ty) -> u8 {
    match t { Ty::Int(w) if *w % 8 == 0 && *w <= 64 && (*w / 8).is_power_of_two() => (*w / 8) as u8, Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, _ => 0 }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut m = Module { text, named_types: HashMap::new(), globals: vec![], funcs: vec![], sym: HashMap::new(), func_by_addr: HashMap::new() };
        let n = m.text.len();
        let mut i = 0;
        let mut named: Vec<(String, usize, usize)> = vec![];
        let mut globs: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        while i < n {
            let e = m.text[i..].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(n);
            let line = &m.text[i..e];
            match line.first() {
                Some(b'%') => {
                    let s = String::from_utf8_lossy(line).into_owned();
                    if let Some(p) = s.find(" = type ") { let nm = s[1..p].trim_matches('"').to_string(); named.push((nm, i + p + 8, e)) }
                }
                Some(b'@') => {
                    let (nm, k) = sym_name(line, 1);
                    // find " = "
                    let rest = i + k + 3;
                    if line[k..].windows(7).any(|w| w == b" alias ") && !line[k..].windows(10).any(|w| w == b" constant ") {
                        let s = String::from_utf8_lossy(line).into_owned();
                        let at = s.rfind('@').unwrap();
                        let (t, _) = sym_name(s.as_bytes(), at + 1);
                        aliases.push((nm, t));
                    } else { globs.push((nm, rest, e)) }
                }
                Some(b'd') if line.starts_with(b"define ") || line.starts_with(b"declare ") => {
                    let at = line.iter().position(|&c| c == b'@').unwrap();
                    let (nm, k) = sym_name(line, at + 1);
                    let (body, adv) = if line.starts_with(b"define ") {
                        // body until "\n}\n"
                        let mut j = e;
                        loop {
                            let e2 = m.text[j + 1..].iter().position(|&c| c == b'\n').map(|k| j + 1 + k).unwrap_or(n);
                            if m.text[j + 1..e2].starts_with(b"}") { break }
                            j = e2;
                        }
                        (Some((i, j + 1)), j + 2)
                    } else { (None, e) };
                    m.funcs.push(FuncDecl { name: nm, body, params_hdr: (i + k, e) });
                    i = adv;
                    continue;
                }
                _ => {}
            }
            i = e + 1;
        }
        // ids: 1.. globals, then functions
        let mut id = 1u64;
        for (nm, a, b) in globs.iter() {
            m.sym.insert(nm.clone(), obj_addr(id));
            m.globals.push(Global { name: nm.clone(), addr: obj_addr(id), size: 0, align: 1, constant: false, range: (*a, *b), external: false });
            id += 1;
        }
        for (k, f) in m.funcs.iter().enumerate() {
            m.sym.insert(f.name.clone(), obj_addr(id));
            m.func_by_addr.insert(obj_addr(id), k);
            id += 1;
        }
        for (a, t) in aliases { if let Some(&v) = m.sym.get(&t) { m.sym.insert(a, v); } }
        // named types may refer to each other: iterate
        for _ in 0..3 {
            for (nm, a, b) in named.iter() {
                let t = { let mut p = P::new(&m, *a, *b); p.ty() };
                m.named_types.insert(nm.clone(), t);
            }
        }
        m
    }
    pub fn nobjs(&self) -> u64 { (self.globals.len() + self.funcs.len()) as u64 + 1 }
    /// parse a global's initialiser
    pub fn global_init(&self, g: usize) -> (Ty, Option<Val>, u64, bool) {
        let (a, b) = self.globals[g].range;
        let mut p = P::new(self, a, b);
        let mut external = false;
        let mut constant = false;
        loop {
            let c = p.peek();
            if !c.is_ascii_alphabetic() { break }
            let k = p.i;
            let w = p.word();
            match w {
                "external" | "extern_weak" => external = true,
                "constant" => { constant = true; break }
                "global" => break,
                "thread_local" | "addrspace" => { if p.i < p.end && p.s[p.i] == b'(' { p.skip_parens() } }
                "private" | "internal" | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "hidden" | "linkonce_odr" | "weak" | "weak_odr" | "common" | "linkonce" | "appending" | "externally_initialized" | "protected" | "default" | "available_externally" => {}
                _ => { p.i = k; p.fail("global prefix") }
            }
        }
        let t = p.ty();
        let v = if external { None } else { Some(p.cval(&t)) };
        let mut align = t.align();
        while p.eat(b',') {
            if p.peek() == b'!' { break }
            let w = p.word();
            if w == "align" { align = p.uint() } else if p.peek() == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1 } p.i += 1 } else if p.peek() == b'(' { p.skip_parens() }
        }
        (t, v, align, constant)
    }
    pub fn decode(&self, k: usize) -> Func {
        let d = &self.funcs[k];
        let (a, b) = d.body.expect("decode of declaration");
        let mut fp = FP { p: P::new(self, d.params_hdr.0, d.params_hdr.1), regs: HashMap::new(), blocks: HashMap::new() };
        // parameters
        let mut params = vec![];
        fp.p.expect(b'(');
        if !fp.p.eat(b')') {
            loop {
                if fp.p.peek() == b'.' { fp.p.i += 3; fp.p.expect(b')'); break }
                let _t = fp.p.ty();
                fp.attrs();
                fp.p.expect(b'%');
                let n = fp.p.name();
                params.push(fp.reg(n));
                if fp.p.eat(b',') { continue }
                fp.p.expect(b')');
                break;
            }
        }
        let nl = self.text[a..b].iter().position(|&c| c == b'\n').unwrap() + a + 1;
        // split into instruction ranges
        let mut items: Vec<(bool, usize, usize)> = vec![]; // (is_label, start, end)
        let mut i = nl;
        while i < b {
            let e = self.text[i..b].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(b);
            let l = &self.text[i..e];
            if l.is_empty() || l[0] == b';' || l[0] == b'}' || l.starts_with(b"    #dbg") { }
            else if l[0] != b' ' { items.push((true, i, e)) }
            else if l.len() > 2 && l[2] != b' ' && l[2] != b']' { items.push((false, i, e)) }
            else { if let Some(last) = items.last_mut() { last.2 = e } }
            i = e + 1;
        }
        // labels
        let mut nblocks = 0u32;
        if items.first().map(|x| x.0) == Some(false) {
            // entry label is implicit: numbered after params if unnamed
            let nm = params.len().to_string();
            fp.blocks.insert(nm, 0);
            nblocks = 1;
        }
        for (is_l, s, e) in items.iter() {
            if *is_l {
                let l = &self.text[*s..*e];
                let (nm, _) = if l[0] == b'"' { let q = l[1..].iter().position(|&c| c == b'"').unwrap(); (String::from_utf8_lossy(&l[1..1 + q]).into_owned(), 0) } else { let q = l.iter().position(|&c| c == b':').unwrap(); (String::from_utf8_lossy(&l[..q]).into_owned(), 0) };
                fp.blocks.insert(nm, nblocks);
                nblocks += 1;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        if items.first().map(|x| x.0) == Some(false) { blocks.push(Block { phis: vec![], insts: vec![] }) }
        for (is_l, s, e) in items.iter() {
            if *is_l { blocks.push(Block { phis: vec![], insts: vec![] }); continue }
            fp.p.i = *s;
            fp.p.end = *e;
            // an instruction the reader does not know makes the paths through it undecided, not the whole run
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fp.inst())).unwrap_or_else(|_| Some(Ok(Inst::Bad(format!("IR not understood: {}", String::from_utf8_lossy(&self.text[*s..(*e).min(*s + 160)])).into()))));
            match r {
                Some(Ok(x)) => blocks.last_mut().unwrap().insts.push(x),
                Some(Err(ph)) => blocks.last_mut().unwrap().phis.push(ph),
                None => {}
            }
        }
        Func { name: d.name.clone(), nregs: fp.regs.len() as u32, params, blocks }
    }
}

fn sym_name(line: &[u8], mut k: usize) -> (String, usize) {
    if line[k] == b'"' {
        k += 1;
        let a = k;
        while line[k] != b'"' { k += 1 }
        (String::from_utf8_lossy(&line[a..k]).into_owned(), k + 1)
    } else {
        let a = k;
        while k < line.len() && is_ident(line[k]) { k += 1 }
        (String::from_utf8_lossy(&line[a..k]).into_owned(), k)
    }
}
