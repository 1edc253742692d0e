//! Symbolic interpreter: executes LLVM IR with bytes that may be expressions, forking at feasible branches.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

/// calls nested deeper than this are taken for a stack overflow; native replay has the 2 MB of a thread
pub const MAX_FRAMES: usize = 2500;
#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fidx: usize,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub allocas: Vec<u64>,
    pub dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub doms: Vec<Dom>,
    pub multi: Vec<bool>,
    pub cons: Vec<E>,
    pub known: Rc<HashMap<E, u128, BuildFx>>,
    pub model: Vec<u8>,
    pub log: Vec<Val>,
    /// instructions on the whole path, and how many of them were already counted by an ancestor state
    pub instrs: u64,
    pub counted: u64,
    pub depth: u32,
    pub errno: u64,
    /// the file that can be opened: address, length, position
    pub file: (u64, u64, u64),
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    /// path constraint became false (assume)
    Assumed,
    Panic(String),
    /// memory fault, trap, unreachable executed
    Fault(String),
    /// instruction limit
    Limit,
    /// a violated assertion with no continuation
    AssertEnd,
    Unsupported(String),
}

enum Ctl { Next, Retry, Jumped, End(End) }
type R<T> = Result<T, Ctl>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Icpt { None, SipWrite, HashOneEnum, MemchrRaw(u8), MemchrCore, Panic, PanicOther, Extern }

pub struct Violation { pub kind: String, pub id: String, pub model: Vec<u8>, pub n: u64 }
pub struct PathRec { pub model: Vec<u8>, pub log: Vec<u64> }

pub struct Stats { pub paths: u64, pub assumed: u64, pub forks: u64, pub branches: u64, pub instrs: u64, pub dom_decisions: u64, pub asserts: u64, pub asserts_sym: u64, pub asserts_trivial: u64, pub max_depth: u32, pub max_syms: usize, pub undecided: u64 }

pub struct Engine<'m> {
    pub m: &'m Module,
    pub x: Exprs,
    pub s: Solver,
    funcs: Vec<Option<Rc<Func>>>,
    icpt: Vec<Option<Icpt>>,
    globals: HashMap<u64, Rc<Obj>, BuildFx>,
    nglob: u64,
    nobj: u64,
    pub work: Vec<State>,
    pub stats: Stats,
    pub violations: BTreeMap<String, Violation>,
    pub undecided: BTreeMap<String, Violation>,
    pub reached: BTreeMap<u64, u64>,
    pub asserted: BTreeMap<u64, (u64, u64)>,
    pub used: Vec<bool>,
    pub samples: Vec<PathRec>,
    pub max_instr: u64,
    pub sample_every: u64,
    pub deadline: Option<Instant>,
    pub profile: HashMap<(usize, u32), u64>,
    pub do_profile: bool,
    pub funcprof: HashMap<usize, u64>,
    pub trace: bool,
    pub ends: BTreeMap<String, u64>,
}

pub enum Outcome { Complete, Timeout, Error(String) }

fn fits(w: u16) -> bool { w <= 64 }

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, timeout_ms: u64) -> Engine<'m> {
        Engine {
            m, x: Exprs::new(), s: Solver::new(timeout_ms), funcs: vec![None; m.funcs.len()], icpt: vec![None; m.funcs.len()], globals: HashMap::default(), nglob: m.globals.len() as u64, nobj: m.nobjs(),
            work: vec![], stats: Stats { paths: 0, assumed: 0, forks: 0, branches: 0, instrs: 0, dom_decisions: 0, asserts: 0, undecided: 0, asserts_sym: 0, asserts_trivial: 0, max_depth: 0, max_syms: 0 },
            violations: BTreeMap::new(), undecided: BTreeMap::new(), reached: BTreeMap::new(), asserted: BTreeMap::new(), used: vec![false; m.funcs.len()], samples: vec![], max_instr: 100_000_000, sample_every: 1, deadline: None,
            profile: HashMap::new(), do_profile: false, funcprof: HashMap::new(), trace: false, ends: BTreeMap::new(),
        }
    }
    fn func(&mut self, k: usize) -> Rc<Func> {
        if let Some(f) = &self.funcs[k] { return f.clone() }
        let f = Rc::new(self.m.decode(k));
        self.funcs[k] = Some(f.clone());
        f
    }
    #[inline]
    fn func_at(&self, a: u64) -> Option<usize> { let (id, off) = split(a); if off == 0 && id > self.nglob && id < self.nobj { Some((id - self.nglob - 1) as usize) } else { None } }
    fn classify(&mut self, k: usize) -> Icpt {
        if let Some(i) = self.icpt[k] { return i }
        let d = &self.m.funcs[k];
        let n = &d.name;
        let nparams = || { let f = self.m.decode(k); f.params.len() };
        let i = if d.body.is_none() { Icpt::Extern }
        else if n.contains("9panicking9panic_fmt") { Icpt::Panic }
        else if n.contains("rust_begin_unwind") || n.contains("___rust_abort") || n.contains("panic_nounwind_fmt") || n.contains("14abort_internal") || n.contains("7process5abort") || n.contains("rust_panic") || n.contains("18handle_alloc_error") || n.contains("13begin_panic") { Icpt::PanicOther }
        else if n.ends_with("6Hasher5write") || n.contains("6Hasher5writeC") || n.contains("6Hasher9write_strC") || n.ends_with("6Hasher9write_str") { if n.contains("3sip") || n.contains("13DefaultHasher") { Icpt::SipWrite } else { Icpt::None } }
        else if n.contains("8hash_one") && (n.contains("11ElementType") || n.contains("14AnnotationType")) { Icpt::HashOneEnum }
        else if n.contains("memchr10memchr_raw") && nparams() == 3 { Icpt::MemchrRaw(1) }
        else if n.contains("memchr11memchr2_raw") && nparams() == 4 { Icpt::MemchrRaw(2) }
        else if n.contains("memchr11memchr3_raw") && nparams() == 5 { Icpt::MemchrRaw(3) }
        else if n.contains("5slice6memchr14memchr_aligned") { Icpt::MemchrCore }
        else { Icpt::None };
        self.icpt[k] = Some(i);
        i
    }

    // ---- values
    fn to_e(&mut self, v: &Val, w: u16) -> E { match v { Val::I(n) => self.x.c(*n as u128, w), Val::W(n) => self.x.c(**n, w), Val::S(e) => *e, Val::A(_) => panic!("aggregate as scalar") } }
    fn from_e(&self, e: E) -> Val { match self.x.cst(e) { Some(c) => if fits(self.x.w(e)) { Val::I(c as u64) } else { Val::W(Rc::new(c)) }, None => Val::S(e) } }
    fn op(&self, st: &State, o: &Op) -> Val { match o { Op::R(r) => st.cur.regs[*r as usize].clone(), Op::C(v) => v.clone() } }
    fn set(&self, st: &mut State, dst: u32, v: Val) { if dst != u32::MAX { st.cur.regs[dst as usize] = v } }
    fn v128(&self, v: &Val) -> Option<u128> { match v { Val::I(n) => Some(*n as u128), Val::W(n) => Some(**n), _ => None } }

    // ---- path condition
    fn model_val(&self, st: &State, e: E) -> u128 { let mut m = HashMap::default(); let md = &st.model; self.x.eval(e, &|s| md[s as usize], &mut m) }
    /// replace sub-conditions that the domains of single bytes already decide
    fn dsimp(&mut self, st: &State, c: E, memo: &mut HashMap<E, E, BuildFx>) -> E {
        if self.x.cst(c).is_some() { return c }
        if let Some(r) = memo.get(&c) { return *r }
        let r = match self.x.supp(c).clone() {
            Supp::None => c,
            Supp::One(s) => {
                if self.x.w(c) != 1 { c } else {
                    let t = self.x.truth(c);
                    let d = st.doms[s as usize];
                    if dom_empty(&dom_and(&d, &dom_not(&t))) { self.x.tru() } else if dom_empty(&dom_and(&d, &t)) { self.x.fls() } else { c }
                }
            }
            Supp::Many(_) => match self.x.k(c) {
                K::And(a, b) if self.x.w(c) == 1 => { let p = self.dsimp(st, a, memo); let q = self.dsimp(st, b, memo); self.x.and(p, q) }
                K::Or(a, b) if self.x.w(c) == 1 => { let p = self.dsimp(st, a, memo); let q = self.dsimp(st, b, memo); self.x.or(p, q) }
                K::Xor(a, b) if self.x.w(c) == 1 => { let p = self.dsimp(st, a, memo); let q = self.dsimp(st, b, memo); self.x.xor(p, q) }
                K::Ite(a, b, d) => { let p = self.dsimp(st, a, memo); if self.x.w(c) == 1 { let q = self.dsimp(st, b, memo); let r = self.dsimp(st, d, memo); self.x.ite(p, q, r) } else { self.x.ite(p, b, d) } }
                K::Eq(a, b) if self.x.w(a) == 8 => {
                    // disjoint domains
                    match (self.x.k(a), self.x.k(b)) { (K::Sym(p), K::Sym(q)) if dom_empty(&dom_and(&st.doms[p as usize], &st.doms[q as usize])) => self.x.fls(), _ => c }
                }
                _ => c,
            },
        };
        memo.insert(c, r);
        r
    }
    fn quick(&mut self, st: &State, c: E, want: bool, ov: &mut HashMap<u32, Dom, BuildFx>) -> bool {
        if let Some(v) = self.x.cst(c) { return (v == 1) == want }
        match self.x.supp(c).clone() {
            Supp::One(s) => {
                if st.multi[s as usize] { return false }
                let t = self.x.truth(c);
                let d = *ov.get(&s).unwrap_or(&st.doms[s as usize]);
                let n = dom_and(&d, &if want { t } else { dom_not(&t) });
                if dom_empty(&n) { return false }
                ov.insert(s, n);
                true
            }
            _ => match (self.x.k(c), want) {
                (K::Xor(a, b), _) if self.x.w(c) == 1 && self.x.cst(b) == Some(1) => self.quick(st, a, !want, ov),
                (K::And(a, b), true) | (K::Or(a, b), false) if self.x.w(c) == 1 => self.quick(st, a, want, ov) && self.quick(st, b, want, ov),
                (K::And(a, b), false) | (K::Or(a, b), true) if self.x.w(c) == 1 => { let save = ov.clone(); if self.quick(st, a, want, ov) { true } else { *ov = save; self.quick(st, b, want, ov) } }
                (K::Eq(a, b), _) => {
                    if let (K::Sym(p), K::Sym(q)) = (self.x.k(a), self.x.k(b)) {
                        if st.multi[p as usize] || st.multi[q as usize] { return false }
                        let dp = *ov.get(&p).unwrap_or(&st.doms[p as usize]);
                        let dq = *ov.get(&q).unwrap_or(&st.doms[q as usize]);
                        if want { if let Some(v) = dom_first(&dom_and(&dp, &dq)) { let mut d = [0; 4]; dom_set(&mut d, v); ov.insert(p, d); ov.insert(q, d); return true } }
                        else { for v in dom_iter(dp) { let mut d = [0; 4]; dom_set(&mut d, v); let r = dom_and(&dq, &dom_not(&d)); if let Some(u) = dom_first(&r) { let mut e = [0; 4]; dom_set(&mut e, u); ov.insert(p, d); ov.insert(q, e); return true } } }
                    }
                    false
                }
                _ => false,
            },
        }
    }
    /// Some(model) if c can hold on this path
    fn feasible(&mut self, st: &State, c: E, force_solver: bool) -> Result<Option<Vec<u8>>, Ctl> {
        if let Some(v) = self.x.cst(c) { return Ok(if v == 1 { Some(st.model.clone()) } else { None }) }
        if !force_solver {
            if self.model_val(st, c) == 1 { return Ok(Some(st.model.clone())) }
            if let Supp::One(s) = self.x.supp(c).clone() {
                let t = self.x.truth(c);
                let n = dom_and(&st.doms[s as usize], &t);
                if dom_empty(&n) { self.stats.dom_decisions += 1; return Ok(None) }
                if !st.multi[s as usize] { self.stats.dom_decisions += 1; let mut m = st.model.clone(); m[s as usize] = dom_first(&n).unwrap(); return Ok(Some(m)) }
            }
            let mut ov = HashMap::default();
            if self.quick(st, c, true, &mut ov) {
                let mut m = st.model.clone();
                for (s, d) in ov { if !dom_has(&d, m[s as usize]) { m[s as usize] = dom_first(&d).unwrap() } }
                self.stats.dom_decisions += 1;
                return Ok(Some(m));
            }
        }
        // slice: constraints transitively sharing symbols with c
        let mut syms: HashSet<u32> = HashSet::new();
        let add = |x: &Exprs, e: E, h: &mut HashSet<u32>| match x.supp(e) { Supp::None => {}, Supp::One(s) => { h.insert(*s); } Supp::Many(v) => for s in v.iter() { h.insert(*s); } };
        add(&self.x, c, &mut syms);
        let mut sel: Vec<E> = vec![c];
        let mut rest: Vec<E> = st.cons.clone();
        loop {
            let mut again = false;
            let mut keep = vec![];
            for e in rest {
                let hit = match self.x.supp(e) { Supp::None => false, Supp::One(s) => syms.contains(s), Supp::Many(v) => v.iter().any(|s| syms.contains(s)) };
                if hit { add(&self.x, e, &mut syms); sel.push(e); again = true } else { keep.push(e) }
            }
            rest = keep;
            if !again { break }
        }
        let doms: Vec<(u32, Dom)> = syms.iter().map(|s| (*s, st.doms[*s as usize])).collect();
        match self.s.check(&self.x, sel, doms) {
            Res::Sat(v) => { let mut m = st.model.clone(); for (s, b) in v { m[s as usize] = b } Ok(Some(m)) }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Ctl::End(End::Unsupported("solver returned unknown (time limit)".into()))),
        }
    }
    fn assume(&mut self, st: &mut State, c: E, model: Vec<u8>) {
        st.model = model;
        let mut memo = HashMap::default();
        let c = self.dsimp(st, c, &mut memo);
        self.assume0(st, c);
    }
    fn assume0(&mut self, st: &mut State, c: E) {
        if self.x.cst(c).is_some() { return }
        match self.x.supp(c).clone() {
            Supp::One(s) => { let t = self.x.truth(c); st.doms[s as usize] = dom_and(&st.doms[s as usize], &t); }
            Supp::Many(v) => match self.x.k(c) {
                K::And(a, b) => { self.assume0(st, a); self.assume0(st, b) }
                K::Xor(a, b) if self.x.cst(b) == Some(1) && matches!(self.x.k(a), K::Or(..)) => { if let K::Or(p, q) = self.x.k(a) { let p = self.x.not(p); let q = self.x.not(q); self.assume0(st, p); self.assume0(st, q) } }
                K::Xor(a, b) if self.x.cst(b) == Some(1) && matches!(self.x.k(a), K::Xor(..)) => { st.cons.push(c); for s in v.iter() { st.multi[*s as usize] = true } let _ = (a, b); }
                _ => { if !st.cons.contains(&c) { st.cons.push(c); for s in v.iter() { st.multi[*s as usize] = true } } }
            },
            _ => {}
        }
    }
    /// (feasible true, feasible false)
    fn decide(&mut self, st: &State, c: E) -> Result<(Option<Vec<u8>>, Option<Vec<u8>>), Ctl> {
        let mut memo = HashMap::default();
        let c = self.dsimp(st, c, &mut memo);
        if let Some(v) = self.x.cst(c) { self.stats.dom_decisions += 1; return Ok(if v == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) }) }
        if st.cons.contains(&c) { return Ok((Some(st.model.clone()), None)) }
        let n = self.x.not(c);
        if st.cons.contains(&n) { return Ok((None, Some(st.model.clone()))) }
        let cur = self.model_val(st, c) == 1;
        if cur { let f = self.feasible(st, n, false)?; Ok((Some(st.model.clone()), f)) } else { let t = self.feasible(st, c, false)?; Ok((t, Some(st.model.clone()))) }
    }
    /// value of e if the path already determines it
    fn settled(&mut self, st: &State, e: E) -> Option<u128> {
        if let Some(c) = self.x.cst(e) { return Some(c) }
        if let Some(v) = st.known.get(&e) { return Some(*v) }
        if let Supp::One(s) = *self.x.supp(e) {
            let d = st.doms[s as usize];
            let mut r = None;
            for v in dom_iter(d) { let q = self.x.eval1(e, v); match r { None => r = Some(q), Some(p) if p != q => return None, _ => {} } }
            return r;
        }
        None
    }
    /// make e concrete, forking over all its feasible values
    fn concretise(&mut self, st: &mut State, e: E, limit: usize) -> R<u128> {
        if let Some(v) = self.settled(st, e) { return Ok(v) }
        let w = self.x.w(e);
        let mut vals: Vec<(u128, Vec<u8>)> = vec![];
        if let Supp::One(s) = *self.x.supp(e) {
            let mut seen: Vec<u128> = vec![];
            for v in dom_iter(st.doms[s as usize]) {
                let q = self.x.eval1(e, v);
                if seen.contains(&q) { continue }
                seen.push(q);
                if !st.multi[s as usize] { let mut m = st.model.clone(); m[s as usize] = v; vals.push((q, m)) }
                else { let k = self.x.c(q, w); let c = self.x.eq(e, k); if let Some(m) = self.feasible(st, c, false)? { vals.push((q, m)) } }
            }
        } else {
            let mut excl: E = self.x.tru();
            let mut m = Some(st.model.clone());
            while let Some(md) = m {
                let mut memo = HashMap::default();
                let q = self.x.eval(e, &|s| md[s as usize], &mut memo);
                vals.push((q, md));
                if vals.len() > limit { return Err(Ctl::End(End::Unsupported(format!("more than {} values to enumerate for {}", limit, self.x.show(e, 4))))) }
                let k = self.x.c(q, w);
                let c = self.x.eq(e, k);
                let n = self.x.not(c);
                excl = self.x.and(excl, n);
                m = self.feasible(st, excl, false)?;
            }
        }
        if vals.is_empty() { return Err(Ctl::End(End::Unsupported("no feasible value".into()))) }
        self.stats.forks += vals.len() as u64 - 1;
        let mut first = None;
        for (i, (q, m)) in vals.into_iter().enumerate() {
            if i == 0 { first = Some((q, m)); continue }
            let mut s2 = st.clone();
            s2.counted = s2.instrs;
            self.fix(&mut s2, e, q, m);
            self.push(s2);
        }
        let (q, m) = first.unwrap();
        self.fix(st, e, q, m);
        Ok(q)
    }
    fn fix(&mut self, st: &mut State, e: E, q: u128, m: Vec<u8>) {
        let w = self.x.w(e);
        let k = self.x.c(q, w);
        let c = self.x.eq(e, k);
        self.assume(st, c, m);
        if !matches!(self.x.supp(e), Supp::One(_)) { Rc::make_mut(&mut st.known).insert(e, q); }
        st.depth += 1;
    }
    fn push(&mut self, st: State) { self.work.push(st) }
    fn cu(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v { Val::I(n) => Ok(*n), Val::S(e) => Ok(self.concretise(st, *e, 300)? as u64), Val::W(n) => Ok(**n as u64), _ => Err(Ctl::End(End::Unsupported("aggregate as integer".into()))) }
    }
    /// fork on a 1-bit value
    fn cbool(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::I(n) => Ok(*n & 1 == 1),
            Val::S(e) => {
                let (t, f) = self.decide(st, *e)?;
                match (t, f) {
                    (Some(m), None) => { st.model = m; Ok(true) }
                    (None, Some(m)) => { st.model = m; Ok(false) }
                    (Some(mt), Some(mf)) => {
                        self.stats.forks += 1;
                        let mut s2 = st.clone();
                        s2.counted = s2.instrs;
                        let n = self.x.not(*e);
                        s2.depth += 1;
                        self.assume(&mut s2, n, mf);
                        self.push(s2);
                        st.depth += 1;
                        self.assume(st, *e, mt);
                        Ok(true)
                    }
                    _ => Err(Ctl::End(End::Unsupported("both sides infeasible".into()))),
                }
            }
            _ => Err(Ctl::End(End::Unsupported("bool operand".into()))),
        }
    }

    // ---- memory
    fn global(&mut self, id: u64) -> Option<Rc<Obj>> {
        if let Some(o) = self.globals.get(&id) { return Some(o.clone()) }
        if id == 0 || id > self.nglob { return None }
        let (ty, init, _al, constant) = self.m.global_init(id as usize - 1);
        let sz = ty.size().max(if init.is_none() { 64 } else { 0 });
        let mut o = Obj { data: vec![0; sz as usize], sym: None, ro: constant, heap: false };
        if let Some(v) = init { put_const(&mut o.data, 0, &ty, &v) }
        let o = Rc::new(o);
        self.globals.insert(id, o.clone());
        Some(o)
    }
    fn obj(&mut self, st: &State, id: u64) -> Option<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) { return Some(o.clone()) }
        if id < self.nobj { return self.global(id) }
        None
    }
    fn fault(&self, st: &State, what: &str, a: u64, n: u64) -> Ctl {
        let (id, off) = split(a);
        let sz = st.mem.get(id).map(|o| o.data.len() as i64).unwrap_or(-1);
        Ctl::End(End::Fault(format!("{} of {} bytes at {:#x}+{:#x} (object size {}) in {}", what, n, id, off, sz, st.cur.f.name)))
    }
    fn oget<'a>(&mut self, st: &'a mut State, a: u64, n: u64, what: &str) -> R<&'a Obj> {
        let (id, off) = split(a);
        if st.mem.get(id).is_none() {
            match if id < self.nobj { self.global(id) } else { None } { Some(o) => st.mem.put(id, o), None => return Err(self.fault(st, what, a, n)) }
        }
        let bad = { let o = st.mem.get(id).unwrap(); off + n > o.data.len() as u64 };
        if bad { return Err(self.fault(st, what, a, n)) }
        Ok(st.mem.get(id).unwrap())
    }
    fn omut<'a>(&mut self, st: &'a mut State, a: u64, n: u64, what: &str) -> R<&'a mut Obj> {
        let ro = self.oget(st, a, n, what)?.ro;
        if ro { return Err(self.fault(st, "write to constant", a, n)) }
        Ok(st.mem.get_mut(split(a).0).unwrap())
    }
    fn byte_e(&mut self, o: &Obj, i: usize) -> E { match &o.sym { Some(s) if s[i] != 0 => s[i] - 1, _ => self.x.c(o.data[i] as u128, 8) } }
    fn load_n(&mut self, st: &mut State, a: u64, n: u64) -> R<Val> {
        let off = split(a).1 as usize;
        let o = self.oget(st, a, n, "read")?;
        let nn = n as usize;
        let conc = match &o.sym { None => true, Some(s) => s[off..off + nn].iter().all(|x| *x == 0) };
        if conc {
            if nn <= 8 { let mut b = [0u8; 8]; b[..nn].copy_from_slice(&o.data[off..off + nn]); return Ok(Val::I(u64::from_le_bytes(b))) }
            let mut b = [0u8; 16];
            b[..nn].copy_from_slice(&o.data[off..off + nn]);
            return Ok(Val::W(Rc::new(u128::from_le_bytes(b))));
        }
        let o = st.mem.get(split(a).0).unwrap().clone();
        let mut r = self.byte_e(&o, off);
        for i in 1..nn { let b = self.byte_e(&o, off + i); r = self.x.concat(b, r) }
        Ok(self.from_e(r))
    }
    fn store_n(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        let off = split(a).1 as usize;
        let nn = n as usize;
        match v {
            Val::I(_) | Val::W(_) => {
                let o = self.omut(st, a, n, "write")?;
                match v { Val::I(x) => { let b = x.to_le_bytes(); if nn <= 8 { o.data[off..off + nn].copy_from_slice(&b[..nn]) } else { o.data[off..off + 8].copy_from_slice(&b); for k in off + 8..off + nn { o.data[k] = 0 } } } Val::W(x) => { let b = x.to_le_bytes(); o.data[off..off + nn].copy_from_slice(&b[..nn]) } _ => {} }
                if let Some(s) = &mut o.sym { for k in off..off + nn { s[k] = 0 } }
            }
            Val::S(e) => {
                let w = self.x.w(*e);
                let e = if (w as u64) < n * 8 { self.x.zext(*e, (n * 8) as u16) } else { *e };
                let mut bs = vec![];
                for i in 0..nn { bs.push(self.x.extract(e, (i * 8) as u16, 8)) }
                let cs: Vec<Option<u128>> = bs.iter().map(|b| self.x.cst(*b)).collect();
                let o = self.omut(st, a, n, "write")?;
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..nn { match cs[i] { Some(c) => { s[off + i] = 0; o.data[off + i] = c as u8 } None => s[off + i] = bs[i] + 1 } }
            }
            Val::A(_) => panic!("store aggregate scalar"),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, ty: &Ty, a: u64) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) => { let mut v = vec![]; for i in 0..ty.nfields() { v.push(self.load_ty(st, &ty.field_ty(i), a + ty.field_off(i))?) } Ok(Val::A(Rc::new(v))) }
            Ty::Vector(n, e) => {
                let eb = e.bits();
                if eb % 8 == 0 { let mut v = vec![]; for i in 0..*n { v.push(self.load_n(st, a + i * (eb as u64 / 8), eb as u64 / 8)?) } Ok(Val::A(Rc::new(v))) }
                else { let x = self.load_n(st, a, ty.size())?; let b = self.cu(st, &x)?; Ok(Val::A(Rc::new((0..*n).map(|i| Val::I(b >> i & 1)).collect()))) }
            }
            _ => {
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                let v = self.load_n(st, a, n)?;
                Ok(match v { Val::I(x) => Val::I(x & mask(w)), Val::S(e) if self.x.w(e) > w => { let r = self.x.extract(e, 0, w); self.from_e(r) } v => v })
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, ty: &Ty, a: u64, v: &Val) -> R<()> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) => { if let Val::A(xs) = v { for i in 0..ty.nfields() { self.store_ty(st, &ty.field_ty(i), a + ty.field_off(i), &xs[i])? } } Ok(()) }
            Ty::Vector(n, e) => {
                let eb = e.bits();
                if let Val::A(xs) = v {
                    if eb % 8 == 0 { for i in 0..*n { self.store_n(st, a + i * (eb as u64 / 8), eb as u64 / 8, &xs[i as usize])? } }
                    else { let mut b = 0u64; for (i, x) in xs.iter().enumerate() { b |= (self.cu(st, x)? & 1) << i } self.store_n(st, a, ty.size(), &Val::I(b))? }
                }
                Ok(())
            }
            _ => self.store_n(st, a, (ty.bits() as u64 + 7) / 8, v),
        }
    }
    fn addr(&mut self, st: &mut State, v: &Val) -> R<u64> { self.cu(st, v) }
    /// read through a symbolic address: table lookup when one byte determines it, otherwise fork
    fn load_sym(&mut self, st: &mut State, ty: &Ty, e: E) -> R<Val> {
        if let (Supp::One(s), true) = (self.x.supp(e).clone(), ty.is_scalar() && ty.bits() <= 64) {
            if self.settled(st, e).is_none() {
                let d = st.doms[s as usize];
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                let mut t = [0u64; 256];
                let mut ok = true;
                let mut fill = None;
                for v in dom_iter(d) {
                    let a = self.x.eval1(e, v) as u64;
                    let (id, off) = split(a);
                    let o = match self.obj(st, id) { Some(o) => o, None => { ok = false; break } };
                    if off + n > o.data.len() as u64 { ok = false; break }
                    if let Some(sy) = &o.sym { if sy[off as usize..(off + n) as usize].iter().any(|x| *x != 0) { ok = false; break } }
                    let mut b = [0u8; 8];
                    b[..n as usize].copy_from_slice(&o.data[off as usize..(off + n) as usize]);
                    let q = u64::from_le_bytes(b) & mask(w);
                    t[v as usize] = q;
                    if fill.is_none() { fill = Some(q) }
                }
                if ok {
                    let f = fill.unwrap();
                    if dom_iter(d).all(|v| t[v as usize] == f) { return Ok(Val::I(f)) }
                    for v in 0..=255u8 { if !dom_has(&d, v) { t[v as usize] = f } }
                    let r = self.x.lut(t, s, w);
                    return Ok(Val::S(r));
                }
            }
        }
        let a = self.concretise(st, e, 300)? as u64;
        self.load_ty(st, ty, a)
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let so = split(s).1 as usize;
        let nn = n as usize;
        let o = self.oget(st, s, n, "memcpy read")?;
        let mut data = [0u8; 64];
        let small = nn <= 64;
        let has_sym = match &o.sym { Some(v) => v[so..so + nn].iter().any(|x| *x != 0), None => false };
        if small && !has_sym {
            data[..nn].copy_from_slice(&o.data[so..so + nn]);
            let od = split(d).1 as usize;
            let o = self.omut(st, d, n, "memcpy write")?;
            o.data[od..od + nn].copy_from_slice(&data[..nn]);
            if let Some(v) = &mut o.sym { for k in od..od + nn { v[k] = 0 } }
            return Ok(());
        }
        let bytes = o.data[so..so + nn].to_vec();
        let syms = if has_sym { o.sym.as_ref().map(|v| v[so..so + nn].to_vec()) } else { None };
        let od = split(d).1 as usize;
        let o = self.omut(st, d, n, "memcpy write")?;
        o.data[od..od + nn].copy_from_slice(&bytes);
        let len = o.data.len();
        match syms { Some(sv) => o.sym.get_or_insert_with(|| vec![0; len])[od..od + nn].copy_from_slice(&sv), None => if let Some(v) = &mut o.sym { for k in od..od + nn { v[k] = 0 } } }
        Ok(())
    }
    fn cstr(&mut self, st: &mut State, a: u64, n: u64) -> Option<String> {
        let off = split(a).1 as usize;
        let o = self.oget(st, a, n, "str").ok()?;
        Some(String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned())
    }
    fn location(&mut self, st: &mut State, p: u64) -> Option<String> {
        let s = match self.load_n(st, p, 8) { Ok(Val::I(v)) => v, _ => return None };
        let n = match self.load_n(st, p + 8, 8) { Ok(Val::I(v)) => v, _ => return None };
        let l = match self.load_n(st, p + 16, 4) { Ok(Val::I(v)) => v, _ => return None };
        if n == 0 || n > 400 { return None }
        let f = self.cstr(st, s, n)?;
        if !f.contains(".rs") { return None }
        let f = f.trim_end_matches('\0').to_string();
        Some(format!("{}:{}", f, l))
    }

    // ---- arithmetic
    fn bin(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { x << y }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => (sext(x, w) >> y.min(63)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(Ctl::End(End::Fault("division by zero".into()))),
                BinOp::UDiv => x / y, BinOp::URem => x % y,
                BinOp::SDiv => sext(x, w).wrapping_div(sext(y, w)) as u64, BinOp::SRem => sext(x, w).wrapping_rem(sext(y, w)) as u64,
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    if w == 64 { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, BinOp::FDiv => p / q, _ => p % q }).to_bits() }
                    else { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, BinOp::FDiv => p / q, _ => p % q }).to_bits() as u64 }
                }
            };
            return Ok(Val::I(r & mask(w)));
        }
        let e = self.to_e(a, w);
        let f = self.to_e(b, w);
        let r = match op {
            BinOp::Add => self.x.add(e, f), BinOp::Sub => self.x.sub(e, f), BinOp::Mul => self.x.mul(e, f), BinOp::And => self.x.and(e, f), BinOp::Or => self.x.or(e, f), BinOp::Xor => self.x.xor(e, f),
            BinOp::Shl => self.x.shl(e, f), BinOp::LShr => self.x.lshr(e, f), BinOp::AShr => self.x.ashr(e, f),
            BinOp::UDiv => self.x.udiv(e, f), BinOp::URem => self.x.urem(e, f), BinOp::SDiv => self.x.sdiv(e, f), BinOp::SRem => self.x.srem(e, f),
            _ => return Err(Ctl::End(End::Unsupported("symbolic floating point".into()))),
        };
        Ok(self.from_e(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w), Pred::Sge => sext(x, w) >= sext(y, w), Pred::Slt => sext(x, w) < sext(y, w), Pred::Sle => sext(x, w) <= sext(y, w) };
            return Ok(Val::I(r as u64));
        }
        let e = self.to_e(a, w);
        let f = self.to_e(b, w);
        let r = match p {
            Pred::Eq => self.x.eq(e, f), Pred::Ne => { let r = self.x.eq(e, f); self.x.not(r) }
            Pred::Ult => self.x.ult(e, f), Pred::Ule => self.x.ule(e, f), Pred::Ugt => self.x.ult(f, e), Pred::Uge => self.x.ule(f, e),
            Pred::Slt => self.x.slt(e, f), Pred::Sle => self.x.sle(e, f), Pred::Sgt => self.x.slt(f, e), Pred::Sge => self.x.sle(f, e),
        };
        Ok(self.from_e(r))
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let Ty::Vector(_, fe) = from {
            if k != Cast::BitcastVec {
                if let (Val::A(xs), Ty::Vector(_, te)) = (v, to) { let mut r = vec![]; for x in xs.iter() { r.push(self.cast(st, k, fe, te, x)?) } return Ok(Val::A(Rc::new(r))) }
            }
        }
        match k {
            Cast::Same => Ok(v.clone()),
            Cast::Trunc => { let w = to.bits(); Ok(match v { Val::I(x) => Val::I(x & mask(w)), Val::W(x) => mkint(**x, w), Val::S(e) => { let r = self.x.extract(*e, 0, w); self.from_e(r) } _ => panic!() }) }
            Cast::ZExt => { let w = to.bits(); Ok(match v { Val::I(x) => mkint(*x as u128, w), Val::W(x) => Val::W(x.clone()), Val::S(e) => { let r = self.x.zext(*e, w); self.from_e(r) } _ => panic!() }) }
            Cast::SExt => { let (fw, w) = (from.bits(), to.bits()); Ok(match v { Val::I(x) => mkint(sext(*x, fw) as i128 as u128, w), Val::S(e) => { let r = self.x.sext(*e, w); self.from_e(r) } _ => panic!() }) }
            Cast::BitcastVec => {
                let total = match from { Ty::Vector(n, e) => *n as u16 * e.bits(), t => t.bits() };
                // lanes -> bits
                let whole = match (from, v) {
                    (Ty::Vector(_, e), Val::A(xs)) => {
                        let eb = e.bits();
                        if xs.iter().all(|x| matches!(x, Val::I(_))) && total <= 128 { let mut r = 0u128; for (i, x) in xs.iter().enumerate() { if let Val::I(n) = x { r |= (*n as u128) << (i as u16 * eb) } } mkint(r, total) }
                        else { let mut r = self.to_e(&xs[0], eb); for x in xs[1..].iter() { let h = self.to_e(x, eb); r = self.x.concat(h, r) } self.from_e(r) }
                    }
                    (_, v) => v.clone(),
                };
                match to {
                    Ty::Vector(n, e) => {
                        let eb = e.bits();
                        let mut r = vec![];
                        for i in 0..*n as u16 { r.push(match &whole { Val::I(x) => Val::I(x >> (i * eb).min(63) & mask(eb)), Val::W(x) => mkint(**x >> (i * eb), eb), Val::S(q) => { let p = self.x.extract(*q, i * eb, eb); self.from_e(p) } _ => panic!() }) }
                        Ok(Val::A(Rc::new(r)))
                    }
                    _ => Ok(whole),
                }
            }
            _ => {
                // floating point: concrete only
                let n = self.cu(st, v)?;
                let r = match k {
                    Cast::UiToFp => if *to == Ty::F64 { (n as f64).to_bits() } else { (n as f32).to_bits() as u64 },
                    Cast::SiToFp => { let s = sext(n, from.bits()); if *to == Ty::F64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } }
                    Cast::FpToUi => (if *from == Ty::F64 { f64::from_bits(n) as u64 } else { f32::from_bits(n as u32) as u64 }) & mask(to.bits()),
                    Cast::FpToSi => (if *from == Ty::F64 { f64::from_bits(n) as i64 } else { f32::from_bits(n as u32) as i64 }) as u64 & mask(to.bits()),
                    Cast::FpExt => (f32::from_bits(n as u32) as f64).to_bits(),
                    _ => (f64::from_bits(n) as f32).to_bits() as u64,
                };
                Ok(Val::I(r))
            }
        }
    }
    fn ite_val(&mut self, w: u16, c: E, a: &Val, b: &Val) -> Val { let x = self.to_e(a, w); let y = self.to_e(b, w); let r = self.x.ite(c, x, y); self.from_e(r) }

    // ---- control
    fn jump(&mut self, st: &mut State, t: u32) {
        let from = st.cur.block;
        let f = st.cur.f.clone();
        let b = &f.blocks[t as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, vs) = &b.phis[0];
                let o = &vs.iter().find(|(p, _)| *p == from).expect("phi edge").1;
                let v = self.op(st, o);
                st.cur.regs[*d as usize] = v;
            } else {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for (d, vs) in b.phis.iter() { let o = &vs.iter().find(|(p, _)| *p == from).expect("phi edge").1; tmp.push((*d, self.op(st, o))) }
                for (d, v) in tmp { st.cur.regs[d as usize] = v }
            }
        }
        st.cur.block = t;
        st.cur.ip = 0;
    }
    fn enter(&mut self, st: &mut State, k: usize, args: Vec<Val>, dst: u32, normal: Option<u32>) {
        self.used[k] = true;
        let f = self.func(k);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (p, v) in f.params.iter().zip(args) { regs[*p as usize] = v }
        let fr = Frame { f, fidx: k, regs, block: 0, ip: 0, allocas: vec![], dst, normal };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> Ctl {
        for a in std::mem::take(&mut st.cur.allocas) { st.mem.dealloc(a) }
        match st.stack.pop() {
            None => Ctl::End(End::Done),
            Some(fr) => {
                let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                let old = std::mem::replace(&mut st.cur, fr);
                self.finish_call(st, old.dst, old.normal, v)
            }
        }
    }
    fn finish_call(&mut self, st: &mut State, dst: u32, normal: Option<u32>, v: Option<Val>) -> Ctl {
        if let Some(v) = v { self.set(st, dst, v) }
        match normal { Some(t) => self.jump(st, t), None => st.cur.ip += 1 }
        Ctl::Jumped
    }

    pub fn start(&mut self, entry: &str, case: u64) -> Result<State, String> {
        let a = *self.m.sym.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let k = *self.m.func_by_addr.get(&a).ok_or("entry is not a function")?;
        let f = self.func(k);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        if let Some(p) = f.params.first() { regs[*p as usize] = Val::I(case) }
        self.used[k] = true;
        Ok(State { mem: Mem::new(self.nobj), cur: Frame { f, fidx: k, regs, block: 0, ip: 0, allocas: vec![], dst: u32::MAX, normal: None }, stack: vec![], doms: vec![], multi: vec![], cons: vec![], known: Rc::new(HashMap::default()), model: vec![], log: vec![], instrs: 0, counted: 0, depth: 0, errno: 0, file: (0, 0, 0) })
    }
    pub fn violation(&mut self, st: &State, kind: &str, id: String, model: &[u8]) {
        let _ = st;
        let v = self.violations.entry(format!("{} {}", kind, id)).or_insert(Violation { kind: kind.into(), id, model: model.to_vec(), n: 0 });
        v.n += 1;
    }
    pub fn run(&mut self, entry: &str, case: u64) -> Outcome {
        let st = match self.start(entry, case) { Ok(s) => s, Err(e) => return Outcome::Error(e) };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let end = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.path(&mut st))) { Ok(e) => e, Err(p) => End::Unsupported(format!("engine limitation: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
            self.stats.instrs += st.instrs - st.counted;
            self.stats.max_depth = self.stats.max_depth.max(st.depth);
            self.stats.max_syms = self.stats.max_syms.max(st.doms.len());
            match &end {
                End::Done => {
                    self.stats.paths += 1;
                    if self.stats.paths % self.sample_every == 0 && self.samples.len() < 4000 {
                        let mut log = vec![];
                        for v in st.log.iter() { log.push(match v { Val::I(n) => *n, Val::S(e) => self.model_val(&st, *e) as u64, _ => 0 }) }
                        self.samples.push(PathRec { model: st.model.clone(), log });
                        if self.samples.len() == 256 { // thin out
                            let mut k = 0;
                            self.samples.retain(|_| { k += 1; k % 2 == 0 });
                            self.sample_every *= 2;
                        }
                    }
                }
                End::Assumed => self.stats.assumed += 1,
                End::AssertEnd => self.stats.paths += 1,
                End::Panic(l) => { self.stats.paths += 1; let m = st.model.clone(); self.violation(&st, "panic", l.clone(), &m) }
                End::Fault(l) => { self.stats.paths += 1; let m = st.model.clone(); self.violation(&st, "fault", l.clone(), &m) }
                End::Limit => { self.stats.paths += 1; let m = st.model.clone(); let l = st.cur.f.name.clone(); self.violation(&st, "limit", l, &m) }
                End::Unsupported(l) => {
                    // this path is not decided; the others still are
                    let mut bt = String::new();
                    for f in st.stack.iter().rev().take(12) { bt.push_str(&format!(" < {}", f.f.name)) }
                    let what = format!("{} in {} block {} ip {}{}", l, st.cur.f.name, st.cur.block, st.cur.ip, bt);
                    let m = st.model.clone();
                    let v = self.undecided.entry(format!("{} in {}", l, st.cur.f.name)).or_insert(Violation { kind: "undecided".into(), id: what.clone(), model: m, n: 0 });
                    v.n += 1;
                    self.stats.undecided += 1;
                    if self.stats.undecided > 2000 { return Outcome::Error(what) }
                }
            }
            *self.ends.entry(match &end { End::Done => "done", End::Assumed => "assumed", End::AssertEnd => "assert", End::Panic(_) => "panic", End::Fault(_) => "fault", End::Limit => "limit", End::Unsupported(_) => "unsupported" }.to_string()).or_insert(0) += 1;
            if let Some(d) = self.deadline { if Instant::now() > d { return Outcome::Timeout } }
        }
        Outcome::Complete
    }
    fn path(&mut self, st: &mut State) -> End {
        let mut tick = 0u32;
        loop {
            let f = st.cur.f.clone();
            let fidx = st.cur.fidx;
            let b = st.cur.block;
            let insts = &f.blocks[b as usize].insts;
            loop {
                let i = &insts[st.cur.ip as usize];
                st.instrs += 1;
                if self.do_profile { *self.funcprof.entry(fidx).or_insert(0) += 1 }
                let r = self.step(st, i);
                match r {
                    Ctl::Next => { st.cur.ip += 1; continue }
                    Ctl::Retry => continue,
                    Ctl::Jumped => break,
                    Ctl::End(e) => return e,
                }
            }
            tick += 1;
            if tick & 0xfff == 0 {
                if st.instrs > self.max_instr { return End::Limit }
                if st.stack.len() > MAX_FRAMES { return End::Fault(format!("stack overflow ({} nested calls) in {}", MAX_FRAMES, st.cur.f.name)) }
                if let Some(d) = self.deadline { if Instant::now() > d { return End::Assumed } }
            }
        }
    }
    #[inline]
    fn step(&mut self, st: &mut State, i: &Inst) -> Ctl { match self.step1(st, i) { Ok(c) => c, Err(c) => c } }
    fn note_fork(&mut self, st: &State, n: u64) { if self.do_profile { *self.profile.entry((st.cur.fidx, st.cur.block)).or_insert(0) += n } }
    fn step1(&mut self, st: &mut State, i: &Inst) -> R<Ctl> {
        match i {
            Inst::Bin { op, w, dst, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) { if let Val::S(_) = y { self.cu(st, &y)?; } }
                let r = if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) && (matches!(x, Val::S(_)) || matches!(y, Val::S(_))) { let p = Val::I(self.cu(st, &x)?); let q = Val::I(self.cu(st, &y)?); self.bin(*op, *w, &p, &q)? }
                else if *w > 64 { let r = { let e = self.to_e(&x, *w); let f = self.to_e(&y, *w); self.bin(*op, *w, &Val::S(e), &Val::S(f))? }; r }
                else { self.bin(*op, *w, &x, &y)? };
                self.set(st, *dst, r);
                Ok(Ctl::Next)
            }
            Inst::ICmp { p, w, dst, a, b } => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = self.icmp(*p, *w, &x, &y)?; self.set(st, *dst, r); Ok(Ctl::Next) }
            Inst::Load { ty, sz, dst, p } => {
                let a = match self.op(st, p) { Val::I(a) => a, Val::S(e) => { let v = self.load_sym(st, ty, e)?; self.set(st, *dst, v); return Ok(Ctl::Next) } _ => panic!() };
                let v = if *sz != 0 { self.load_n(st, a, *sz as u64)? } else { self.load_ty(st, ty, a)? };
                self.set(st, *dst, v);
                Ok(Ctl::Next)
            }
            Inst::Store { ty, sz, v, p } => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let x = self.op(st, v);
                if *sz != 0 { self.store_n(st, a, *sz as u64, &x)? } else { self.store_ty(st, ty, a, &x)? }
                Ok(Ctl::Next)
            }
            Inst::Gep { dst, p, off, idx } => {
                let base = self.op(st, p);
                if let Val::I(b) = base {
                    let mut a = b.wrapping_add(*off);
                    let mut ok = true;
                    for (o, w, sc) in idx.iter() { match self.op(st, o) { Val::I(n) => a = a.wrapping_add((sext(n, *w) as u64).wrapping_mul(*sc)), _ => { ok = false; break } } }
                    if ok { self.set(st, *dst, Val::I(a)); return Ok(Ctl::Next) }
                }
                let mut e = self.to_e(&base, 64);
                let o = self.x.c(*off as u128, 64);
                e = self.x.add(e, o);
                for (o, w, sc) in idx.iter() {
                    let v = self.op(st, o);
                    let mut q = self.to_e(&v, *w);
                    if *w < 64 { q = self.x.sext(q, 64) } else if *w > 64 { q = self.x.extract(q, 0, 64) }
                    let k = self.x.c(*sc as u128, 64);
                    let t = self.x.mul(q, k);
                    e = self.x.add(e, t);
                }
                let v = self.from_e(e);
                self.set(st, *dst, v);
                Ok(Ctl::Next)
            }
            Inst::Br { t } => { self.jump(st, *t); Ok(Ctl::Jumped) }
            Inst::CondBr { c, t, f } => {
                let v = self.op(st, c);
                self.stats.branches += 1;
                match &v {
                    Val::I(n) => { let d = if *n & 1 == 1 { *t } else { *f }; self.jump(st, d) }
                    Val::S(e) => {
                        let e = *e;
                        let (mt, mf) = self.decide(st, e)?;
                        match (mt, mf) {
                            (Some(m), None) => { st.model = m; self.jump(st, *t) }
                            (None, Some(m)) => { st.model = m; self.jump(st, *f) }
                            (Some(mt), Some(mf)) => {
                                self.stats.forks += 1;
                                self.note_fork(st, 1);
                                let mut s2 = st.clone();
                                s2.counted = s2.instrs;
                                s2.depth += 1;
                                let n = self.x.not(e);
                                self.assume(&mut s2, n, mf);
                                self.jump(&mut s2, *f);
                                self.push(s2);
                                st.depth += 1;
                                self.assume(st, e, mt);
                                self.jump(st, *t);
                            }
                            _ => return Err(Ctl::End(End::Unsupported("both sides infeasible".into()))),
                        }
                    }
                    _ => panic!(),
                }
                Ok(Ctl::Jumped)
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.op(st, v);
                self.stats.branches += 1;
                if let Some(n) = self.v128(&x) { let d = cases.iter().find(|(c, _)| *c == n).map(|(_, b)| *b).unwrap_or(*def); self.jump(st, d); return Ok(Ctl::Jumped) }
                let e = self.to_e(&x, *w);
                if let Some(n) = self.settled(st, e) { let d = cases.iter().find(|(c, _)| *c == n).map(|(_, b)| *b).unwrap_or(*def); self.jump(st, d); return Ok(Ctl::Jumped) }
                // one condition per distinct destination
                let mut dests: Vec<(u32, E)> = vec![];
                let mut any = self.x.fls();
                for (c, b) in cases.iter() {
                    let k = self.x.c(*c, *w);
                    let q = self.x.eq(e, k);
                    any = self.x.or(any, q);
                    if *b == *def { continue }
                    match dests.iter_mut().find(|(d, _)| d == b) { Some(x) => x.1 = self.x.or(x.1, q), None => dests.push((*b, q)) }
                }
                let mut dc = self.x.not(any);
                for (c, b) in cases.iter() { if *b == *def { let k = self.x.c(*c, *w); let q = self.x.eq(e, k); dc = self.x.or(dc, q) } }
                dests.push((*def, dc));
                let mut alts = vec![];
                for (b, c) in dests {
                    let mut memo = HashMap::default();
                    let c = self.dsimp(st, c, &mut memo);
                    if let Some(m) = self.feasible(st, c, false)? { alts.push((b, c, m)) }
                }
                if alts.is_empty() { return Err(Ctl::End(End::Unsupported("switch infeasible".into()))) }
                self.stats.forks += alts.len() as u64 - 1;
                self.note_fork(st, alts.len() as u64 - 1);
                let many = alts.len() > 1;
                for (b, c, m) in alts.drain(1..) {
                    let mut s2 = st.clone();
                    s2.counted = s2.instrs;
                    s2.depth += 1;
                    self.assume(&mut s2, c, m);
                    self.jump(&mut s2, b);
                    self.push(s2);
                }
                let (b, c, m) = alts.pop().unwrap();
                if many { st.depth += 1 }
                self.assume(st, c, m);
                self.jump(st, b);
                Ok(Ctl::Jumped)
            }
            Inst::Cast { k, from, to, dst, a } => {
                let v = self.op(st, a);
                let r = match (k, &v) { (Cast::ZExt, Val::I(x)) if fits(to_bits(to)) => Val::I(*x), _ => self.cast(st, *k, from, to, &v)? };
                self.set(st, *dst, r);
                Ok(Ctl::Next)
            }
            Inst::Select { w, dst, c, a, b, vec } => {
                let cv = self.op(st, c);
                if *vec {
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    if let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) {
                        let mut r = vec![];
                        for i in 0..cs.len() { r.push(match &cs[i] { Val::I(n) => if n & 1 == 1 { xs[i].clone() } else { ys[i].clone() }, Val::S(e) => self.ite_val(*w, *e, &xs[i], &ys[i]), _ => panic!() }) }
                        self.set(st, *dst, Val::A(Rc::new(r)));
                    }
                    return Ok(Ctl::Next);
                }
                let r = match &cv {
                    Val::I(n) => if n & 1 == 1 { self.op(st, a) } else { self.op(st, b) },
                    Val::S(e) => {
                        let (x, y) = (self.op(st, a), self.op(st, b));
                        if matches!(x, Val::A(_)) || matches!(y, Val::A(_)) || *w == 0 { if self.cbool(st, &cv)? { x } else { y } }
                        else {
                            let mut memo = HashMap::default();
                            let c = self.dsimp(st, *e, &mut memo);
                            match self.x.cst(c) { Some(1) => x, Some(_) => y, None => self.ite_val(*w, c, &x, &y) }
                        }
                    }
                    _ => panic!(),
                };
                self.set(st, *dst, r);
                Ok(Ctl::Next)
            }
            Inst::Alloca { dst, size, n, .. } => {
                let k = self.op(st, n);
                let k = self.cu(st, &k)?;
                let a = st.mem.alloc(size * k, 0, false);
                st.cur.allocas.push(split(a).0);
                self.set(st, *dst, Val::I(a));
                Ok(Ctl::Next)
            }
            Inst::Ret { v } => { let v = v.as_ref().map(|o| self.op(st, o)); Ok(self.ret(st, v)) }
            Inst::Call { dst, ret, f, args, normal } => self.call(st, *dst, ret, f, args, *normal),
            Inst::Extract { dst, a, idx } => { let mut v = self.op(st, a); for k in idx.iter() { v = match &v { Val::A(x) => x[*k as usize].clone(), _ => panic!("extractvalue") } } self.set(st, *dst, v); Ok(Ctl::Next) }
            Inst::Insert { dst, a, v, idx, .. } => {
                let mut x = self.op(st, a);
                let y = self.op(st, v);
                fn ins(x: &mut Val, idx: &[u32], y: Val) { match x { Val::A(r) => { let r = Rc::make_mut(r); if idx.len() == 1 { r[idx[0] as usize] = y } else { ins(&mut r[idx[0] as usize], &idx[1..], y) } } _ => panic!("insertvalue") } }
                ins(&mut x, idx, y);
                self.set(st, *dst, x);
                Ok(Ctl::Next)
            }
            Inst::VBin { op, w, dst, a, b } => {
                if let (Val::A(x), Val::A(y)) = (self.op(st, a), self.op(st, b)) { let mut r = Vec::with_capacity(x.len()); for i in 0..x.len() { r.push(self.bin(*op, *w, &x[i], &y[i])?) } self.set(st, *dst, Val::A(Rc::new(r))) }
                Ok(Ctl::Next)
            }
            Inst::VICmp { p, w, dst, a, b } => {
                if let (Val::A(x), Val::A(y)) = (self.op(st, a), self.op(st, b)) { let mut r = Vec::with_capacity(x.len()); for i in 0..x.len() { r.push(self.icmp(*p, *w, &x[i], &y[i])?) } self.set(st, *dst, Val::A(Rc::new(r))) }
                Ok(Ctl::Next)
            }
            Inst::ExtElem { dst, a, i } => { let iv = self.op(st, i); let k = self.cu(st, &iv)? as usize; if let Val::A(x) = self.op(st, a) { let v = x[k].clone(); self.set(st, *dst, v) } Ok(Ctl::Next) }
            Inst::InsElem { dst, a, v, i } => { let iv = self.op(st, i); let k = self.cu(st, &iv)? as usize; let y = self.op(st, v); let mut x = self.op(st, a); if let Val::A(r) = &mut x { Rc::make_mut(r)[k] = y } self.set(st, *dst, x); Ok(Ctl::Next) }
            Inst::Shuffle { dst, a, b, mask } => {
                if let (Val::A(x), Val::A(y)) = (self.op(st, a), self.op(st, b)) {
                    let r = mask.iter().map(|m| { let m = *m; if m < 0 { Val::I(0) } else if (m as usize) < x.len() { x[m as usize].clone() } else { y[m as usize - x.len()].clone() } }).collect();
                    self.set(st, *dst, Val::A(Rc::new(r)));
                }
                Ok(Ctl::Next)
            }
            Inst::FCmp { p, ty, dst, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if matches!(x, Val::S(_)) || matches!(y, Val::S(_)) {
                    // over the bit patterns: unordered if either is NaN, both zeros equal, otherwise ordered by sign and magnitude
                    let w: u16 = if *ty == Ty::F64 { 64 } else { 32 };
                    let (sign, mag, inf): (u128, u128, u128) = if w == 64 { (1 << 63, (1 << 63) - 1, 0x7ff << 52) } else { (1 << 31, (1 << 31) - 1, 0xff << 23) };
                    let (ex, ey) = (self.to_e(&x, w), self.to_e(&y, w));
                    let (sign, mag, inf, zero) = (self.x.c(sign, w), self.x.c(mag, w), self.x.c(inf, w), self.x.c(0, w));
                    let top = self.x.c(w as u128 - 1, w);
                    let mut prep = |e: E| {
                        let m = self.x.and(e, mag);
                        let nan = self.x.ult(inf, m);
                        let z = self.x.eq(m, zero);
                        let c = self.x.ite(z, zero, e);
                        let s = self.x.ashr(c, top);
                        let s = self.x.or(s, sign);
                        (nan, self.x.xor(c, s))
                    };
                    let ((n1, k1), (n2, k2)) = (prep(ex), prep(ey));
                    let un = self.x.or(n1, n2);
                    let ord = self.x.not(un);
                    let r = match &p[1..] { "eq" => self.x.eq(k1, k2), "ne" => { let r = self.x.eq(k1, k2); self.x.not(r) } "gt" => self.x.ult(k2, k1), "ge" => self.x.ule(k2, k1), "lt" => self.x.ult(k1, k2), "le" => self.x.ule(k1, k2), _ => self.x.tru() };
                    let r = match &**p { "ord" => ord, "uno" => un, "true" => self.x.tru(), "false" => self.x.fls(), p if p.starts_with('o') => self.x.and(ord, r), _ => self.x.or(un, r) };
                    let v = self.from_e(r);
                    self.set(st, *dst, v);
                    return Ok(Ctl::Next);
                }
                let (x, y) = (self.cu(st, &x)?, self.cu(st, &y)?);
                let (x, y) = if *ty == Ty::F64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match &**p { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, "true" => true, _ => false };
                self.set(st, *dst, Val::I(r as u64));
                Ok(Ctl::Next)
            }
            Inst::FNeg { ty, dst, a } => { let x = self.op(st, a); if let Val::S(_) = x { let w: u16 = if *ty == Ty::F64 { 64 } else { 32 }; let e = self.to_e(&x, w); let m = self.x.c(1u128 << (w - 1), w); let r = self.x.xor(e, m); let v = self.from_e(r); self.set(st, *dst, v); return Ok(Ctl::Next) } let x = self.cu(st, &x)?; let r = if *ty == Ty::F64 { x ^ (1 << 63) } else { x ^ (1 << 31) }; self.set(st, *dst, Val::I(r)); Ok(Ctl::Next) }
            Inst::Rmw { op, w, dst, p, v } => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let n = (*w as u64 + 7) / 8;
                let old = self.load_n(st, a, n)?;
                let x = self.op(st, v);
                let new = match &**op { "xchg" => x, "add" => self.bin(BinOp::Add, *w, &old, &x)?, "sub" => self.bin(BinOp::Sub, *w, &old, &x)?, "and" => self.bin(BinOp::And, *w, &old, &x)?, "or" => self.bin(BinOp::Or, *w, &old, &x)?, "xor" => self.bin(BinOp::Xor, *w, &old, &x)?, o => return Err(Ctl::End(End::Unsupported(format!("atomicrmw {}", o)))) };
                self.store_n(st, a, n, &new)?;
                self.set(st, *dst, old);
                Ok(Ctl::Next)
            }
            Inst::CmpXchg { w, dst, p, c, n } => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let sz = (*w as u64 + 7) / 8;
                let old = self.load_n(st, a, sz)?;
                let cv = self.op(st, c);
                let q = self.icmp(Pred::Eq, *w, &old, &cv)?;
                let ok = self.cbool(st, &q)?;
                if ok { let nv = self.op(st, n); self.store_n(st, a, sz, &nv)? }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
                Ok(Ctl::Next)
            }
            Inst::Asm { dst, ret } => { let v = P::zero(ret); if *ret != Ty::Void { self.set(st, *dst, v) } Ok(Ctl::Next) }
            Inst::Nop => Ok(Ctl::Next),
            Inst::Unreachable => Err(Ctl::End(End::Fault(format!("unreachable executed in {}", st.cur.f.name)))),
            Inst::Bad(s) => Err(Ctl::End(End::Unsupported(s.to_string()))),
        }
    }
    fn call(&mut self, st: &mut State, dst: u32, ret: &Ty, f: &Op, args: &Rc<Vec<(Ty, Op)>>, normal: Option<u32>) -> R<Ctl> {
        let fv = self.op(st, f);
        let fa = self.cu(st, &fv)?;
        let k = match self.func_at(fa) { Some(k) => k, None => return Err(Ctl::End(End::Fault(format!("call through bad pointer {:#x} in {}", fa, st.cur.f.name)))) };
        let ic = self.classify(k);
        let mut av: Vec<Val> = Vec::with_capacity(args.len());
        for (_, o) in args.iter() { av.push(self.op(st, o)) }
        let r: Option<Val> = match ic {
            Icpt::None => { self.enter(st, k, av, dst, normal); return Ok(Ctl::Jumped) }
            Icpt::SipWrite => {
                // keyed hashing is replaced by hashing of the length only: maps stay correct, layouts become input-independent
                let n = self.cu(st, &av[2])?;
                let z = st.mem.alloc(n.max(1), 0, false);
                av[1] = Val::I(z);
                self.enter(st, k, av, dst, normal);
                st.cur.allocas.push(split(z).0);
                return Ok(Ctl::Jumped);
            }
            Icpt::HashOneEnum => {
                // argument: pointer to the one-byte key
                let mut kb = None;
                for a in av.iter().rev() { if let Val::I(p) = a { if *p > 0xffff_ffff { let b = self.load_n(st, *p, 1)?; kb = Some(b); break } } if let Val::S(_) = a { kb = Some(a.clone()); break } }
                let b = match kb { Some(b) => self.cu(st, &b)?, None => match av.last() { Some(Val::I(n)) => *n, _ => 0 } };
                Some(Val::I((b + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)))
            }
            Icpt::MemchrRaw(n) => {
                let s = self.cu(st, &av[n as usize])?;
                let e = self.cu(st, &av[n as usize + 1])?;
                let needles: Vec<Val> = av[..n as usize].to_vec();
                let r = self.memchr(st, &needles, s, e.wrapping_sub(s))?;
                Some(Val::A(Rc::new(match r { Some(i) => vec![Val::I(1), Val::I(s + i)], None => vec![Val::I(0), Val::I(0)] })))
            }
            Icpt::MemchrCore => {
                let s = self.cu(st, &av[1])?;
                let n = self.cu(st, &av[2])?;
                let r = self.memchr(st, &av[..1].to_vec(), s, n)?;
                Some(Val::A(Rc::new(match r { Some(i) => vec![Val::I(1), Val::I(i)], None => vec![Val::I(0), Val::I(0)] })))
            }
            Icpt::Panic => {
                let mut loc = None;
                for a in av.iter().rev() { if let Val::I(p) = a { if let Some(l) = self.location(st, *p) { loc = Some(l); break } } }
                let l = loc.unwrap_or_else(|| "unknown location".into());
                return Err(Ctl::End(End::Panic(self.blame(st, l))));
            }
            Icpt::PanicOther => return Err(Ctl::End(End::Panic(self.blame(st, self.m.funcs[k].name.clone())))),
            Icpt::Extern => {
                let name = self.m.funcs[k].name.clone();
                self.ext(st, &name, ret, &av, args)?
            }
        };
        Ok(self.finish_call(st, dst, normal, r))
    }
    /// panic location, plus the innermost caller inside the crate under test
    fn blame(&mut self, st: &State, l: String) -> String {
        let mut who = None;
        let crates = |n: &str| n.contains("5folia") || n.contains("7harness");
        if crates(&st.cur.f.name) { who = Some(st.cur.f.name.clone()) }
        for f in st.stack.iter().rev() { if who.is_some() { break } if crates(&f.f.name) { who = Some(f.f.name.clone()) } }
        format!("{} in {}", l, who.unwrap_or_else(|| st.cur.f.name.clone()))
    }
    /// first position of any needle, forking over the feasible answers
    fn memchr(&mut self, st: &mut State, needles: &[Val], s: u64, n: u64) -> R<Option<u64>> {
        if n == 0 { return Ok(None) }
        let off = split(s).1 as usize;
        let o = { self.oget(st, s, n, "memchr")?; st.mem.get(split(s).0).unwrap().clone() };
        for i in 0..n as usize {
            let mut c = self.x.fls();
            let conc_b = match &o.sym { Some(v) if v[off + i] != 0 => None, _ => Some(o.data[off + i]) };
            if let (Some(b), true) = (conc_b, needles.iter().all(|x| matches!(x, Val::I(_)))) {
                if needles.iter().any(|x| matches!(x, Val::I(v) if *v as u8 == b)) { return Ok(Some(i as u64)) }
                continue;
            }
            let be = self.byte_e(&o, off + i);
            for nd in needles { let e = self.to_e(nd, 8); let q = self.x.eq(be, e); c = self.x.or(c, q) }
            let v = self.from_e(c);
            if self.cbool(st, &v)? { return Ok(Some(i as u64)) }
        }
        Ok(None)
    }
    fn ov(&mut self, st: &mut State, name: &str, a: &Val, b: &Val) -> R<Val> {
        // llvm.<op>.with.overflow.iN
        let w: u16 = name.rsplit(".i").next().unwrap().parse().unwrap();
        let op = &name[5..9];
        if w <= 64 {
            if let (Val::I(x), Val::I(y)) = (a, b) {
                let (r, o) = match op {
                    "uadd" => { let r = *x as u128 + *y as u128; (r as u64 & mask(w), r > mask(w) as u128) }
                    "usub" => (x.wrapping_sub(*y) & mask(w), x < y),
                    "umul" => { let r = *x as u128 * *y as u128; (r as u64 & mask(w), r > mask(w) as u128) }
                    _ => { let (p, q) = (sext(*x, w) as i128, sext(*y, w) as i128); let r = match op { "sadd" => p + q, "ssub" => p - q, _ => p * q }; let t = r as u64 & mask(w); (t, sext(t, w) as i128 != r) }
                };
                return Ok(Val::A(Rc::new(vec![Val::I(r), Val::I(o as u64)])));
            }
        }
        if w > 64 { return Err(Ctl::End(End::Unsupported("overflow op on i128".into()))) }
        let _ = st;
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let (r, o) = match op {
            "uadd" => { let r = self.x.add(x, y); let o = self.x.ult(r, x); (r, o) }
            "usub" => { let r = self.x.sub(x, y); let o = self.x.ult(x, y); (r, o) }
            _ => {
                let signed = op.starts_with('s');
                let (p, q) = if signed { (self.x.sext(x, 2 * w), self.x.sext(y, 2 * w)) } else { (self.x.zext(x, 2 * w), self.x.zext(y, 2 * w)) };
                let f = match &op[1..] { "add" => self.x.add(p, q), "sub" => self.x.sub(p, q), _ => self.x.mul(p, q) };
                let r = match &op[1..] { "add" => self.x.add(x, y), "sub" => self.x.sub(x, y), _ => self.x.mul(x, y) };
                let back = if signed { self.x.sext(r, 2 * w) } else { self.x.zext(r, 2 * w) };
                let e = self.x.eq(f, back);
                (r, self.x.not(e))
            }
        };
        Ok(Val::A(Rc::new(vec![self.from_e(r), self.from_e(o)])))
    }
    /// function of one value: table when a single byte determines it, otherwise enumerate
    fn map1(&mut self, st: &mut State, v: &Val, w: u16, f: &dyn Fn(u64) -> u64) -> R<Val> {
        match v {
            Val::I(n) => Ok(Val::I(f(*n))),
            Val::S(e) => {
                if let Supp::One(s) = *self.x.supp(*e) {
                    if w <= 64 { let d = st.doms[s as usize]; let mut t = [0u64; 256]; for b in dom_iter(d) { t[b as usize] = f(self.x.eval1(*e, b) as u64) } let r = self.x.lut(t, s, w); return Ok(self.from_e(r)) }
                }
                let n = self.concretise(st, *e, 300)? as u64;
                Ok(Val::I(f(n)))
            }
            _ => Err(Ctl::End(End::Unsupported("map1".into()))),
        }
    }
    fn cmpbytes(&mut self, st: &mut State, a: u64, b: u64, n: u64, order: bool) -> R<Val> {
        if n == 0 { return Ok(Val::I(0)) }
        self.oget(st, a, n, "memcmp")?;
        self.oget(st, b, n, "memcmp")?;
        let (oa, ob) = (st.mem.get(split(a).0).unwrap().clone(), st.mem.get(split(b).0).unwrap().clone());
        let (fa, fb) = (split(a).1 as usize, split(b).1 as usize);
        let nn = n as usize;
        let conc = |o: &Obj, f: usize| match &o.sym { None => true, Some(s) => s[f..f + nn].iter().all(|x| *x == 0) };
        if conc(&oa, fa) && conc(&ob, fb) {
            let r = oa.data[fa..fa + nn].cmp(&ob.data[fb..fb + nn]);
            return Ok(Val::I(match r { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }));
        }
        if !order {
            let mut eq = self.x.tru();
            for i in 0..nn { let p = self.byte_e(&oa, fa + i); let q = self.byte_e(&ob, fb + i); let e = self.x.eq(p, q); if self.x.cst(e) == Some(0) { return Ok(Val::I(1)) } eq = self.x.and(eq, e) }
            let ne = self.x.not(eq);
            let r = self.x.zext(ne, 32);
            return Ok(self.from_e(r));
        }
        let mut r = self.x.c(0, 32);
        let (neg, pos) = (self.x.c(0xffff_ffff, 32), self.x.c(1, 32));
        for i in (0..nn).rev() {
            let p = self.byte_e(&oa, fa + i);
            let q = self.byte_e(&ob, fb + i);
            let lt = self.x.ult(p, q);
            let gt = self.x.ult(q, p);
            let t = self.x.ite(gt, pos, r);
            r = self.x.ite(lt, neg, t);
        }
        Ok(self.from_e(r))
    }
    fn fresh(&mut self, st: &mut State, d: Dom) -> E {
        let s = st.doms.len() as u32;
        st.doms.push(d);
        st.multi.push(false);
        st.model.push(dom_first(&d).unwrap());
        if dom_iter(d).count() == 1 { let v = dom_first(&d).unwrap(); return self.x.c(v as u128, 8) }
        self.x.sym(s)
    }
    fn malloc(&mut self, st: &mut State, n: u64, fill: u8) -> R<Val> {
        if n > 64 << 20 { return Err(Ctl::End(End::Fault(format!("allocation of {} bytes", n)))) }
        Ok(Val::I(st.mem.alloc(n, fill, true)))
    }
    fn ext(&mut self, st: &mut State, name: &str, ret: &Ty, av: &[Val], args: &Rc<Vec<(Ty, Op)>>) -> R<Option<Val>> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, name, n, ret, av, args);
        }
        macro_rules! u { ($i:expr) => { self.cu(st, &av[$i])? } }
        Ok(match name {
            "vs_sym" => { // (ptr, n, set)
                let (p, n, set) = (u!(0), u!(1), u!(2));
                let mut d = [0u64; 4];
                for i in 0..4 { if let Val::I(v) = self.load_n(st, set + 8 * i, 8)? { d[i as usize] = v } }
                for i in 0..n { let e = self.fresh(st, d); let v = self.from_e(e); self.store_n(st, p + i, 1, &v)? }
                None
            }
            "vs_choose" => {
                // the concretisation re-executes nothing: every alternative continues after this call
                let n = u!(0);
                if n == 0 { return Err(Ctl::End(End::Assumed)) }
                if n > 256 { return Err(Ctl::End(End::Unsupported("a choice among more than 256".into()))) }
                let mut d = [0u64; 4];
                for v in 0..n.min(256) { dom_set(&mut d, v as u8) }
                let e = match st.known.get(&(u32::MAX - 1)) { Some(v) => { let v = *v as E; Rc::make_mut(&mut st.known).remove(&(u32::MAX - 1)); v } None => { let e = self.fresh(st, d); if self.x.cst(e).is_none() { Rc::make_mut(&mut st.known).insert(u32::MAX - 1, e as u128); } e } };
                let v = self.concretise(st, e, 256)?;
                Rc::make_mut(&mut st.known).remove(&(u32::MAX - 1));
                Some(Val::I(v as u64))
            }
            "vs_conc" => Some(Val::I(u!(0))),
            "vs_assume" => {
                let c = self.bit(&av[0]);
                if let Some(v) = self.x.cst(c) { if v == 0 { return Err(Ctl::End(End::Assumed)) } return Ok(None) }
                match self.feasible(st, c, false)? { Some(m) => self.assume(st, c, m), None => return Err(Ctl::End(End::Assumed)) }
                None
            }
            "vs_assert" => {
                let id = u!(1);
                let c = self.bit(&av[0]);
                self.stats.asserts += 1;
                let ent = self.asserted.entry(id).or_insert((0, 0));
                ent.0 += 1;
                let mut memo = HashMap::default();
                let sc = if self.x.cst(c).is_some() { c } else { ent.1 += 1; self.stats.asserts_sym += 1; self.dsimp(st, c, &mut memo) };
                if self.x.cst(c) == Some(1) { self.stats.asserts_trivial += 1; return Ok(None) }
                if self.x.cst(sc) == Some(1) {
                    // decided by byte domains; confirmed by the solver
                    let n = self.x.not(c);
                    if self.feasible(st, n, true)?.is_some() { return Err(Ctl::End(End::Unsupported("domain reasoning disagrees with the solver".into()))) }
                    return Ok(None);
                }
                if self.x.cst(sc) == Some(0) { let m = st.model.clone(); self.violation(st, "assert", id.to_string(), &m); return Err(Ctl::End(End::AssertEnd)) }
                let n = self.x.not(sc);
                if let Some(m) = self.feasible(st, n, true)? { self.violation(st, "assert", id.to_string(), &m) }
                match self.feasible(st, sc, false)? { Some(m) => self.assume(st, sc, m), None => return Err(Ctl::End(End::AssertEnd)) }
                None
            }
            "vs_fail" => { let id = u!(0); self.stats.asserts += 1; let ent = self.asserted.entry(id).or_insert((0, 0)); ent.0 += 1; let m = st.model.clone(); self.violation(st, "assert", id.to_string(), &m); return Err(Ctl::End(End::AssertEnd)) }
            "vs_reach" => { let id = u!(0); *self.reached.entry(id).or_insert(0) += 1; None }
            "vs_log" => { st.log.push(av[0].clone()); None }
            "vs_file" => { // (ptr, n, path buffer, its size) -> length of the path
                let (p, n, d) = (u!(0), u!(1), u!(2));
                let q = st.mem.alloc(n.max(1), 0, false);
                if n > 0 { self.memcpy(st, q, p, n)? }
                st.file = (q, n, 0);
                for (i, b) in b"/f".iter().enumerate() { self.store_n(st, d + i as u64, 1, &Val::I(*b as u64))? }
                Some(Val::I(2))
            }
            "open64" | "open" => {
                if st.file.0 == 0 { return Err(Ctl::End(End::Unsupported("opening a file".into()))) }
                st.file.2 = 0;
                Some(Val::I(77))
            }
            "read" => {
                let (fd, d, n) = (u!(0), u!(1), u!(2));
                if fd != 77 { return Err(Ctl::End(End::Unsupported("reading a file".into()))) }
                let k = n.min(st.file.1 - st.file.2);
                if k > 0 { let f = st.file.0 + st.file.2; self.memcpy(st, d, f, k)?; st.file.2 += k }
                Some(Val::I(k))
            }
            "fcntl" | "close" => {
                if u!(0) != 77 { return Err(Ctl::End(End::Unsupported(format!("{} of another file", name)))) }
                Some(Val::I(0))
            }
            "vs_native" => Some(Val::I(0)),
            "malloc" => { let n = u!(0); Some(self.malloc(st, n, 0xaa)?) }
            "calloc" => { let n = u!(0).wrapping_mul(u!(1)); Some(self.malloc(st, n, 0)?) }
            "posix_memalign" => { let n = u!(2); let p = self.malloc(st, n, 0xaa)?; let d = u!(0); self.store_n(st, d, 8, &p)?; Some(Val::I(0)) }
            "aligned_alloc" => { let n = u!(1); Some(self.malloc(st, n, 0xaa)?) }
            "realloc" => {
                let (p, n) = (u!(0), u!(1));
                let old = { let o = self.oget(st, p, 0, "realloc")?; o.data.len() as u64 };
                let q = self.malloc(st, n, 0xaa)?;
                if let Val::I(d) = q { self.memcpy(st, d, p, old.min(n))? }
                st.mem.dealloc(split(p).0);
                Some(q)
            }
            "free" => {
                let p = u!(0);
                if p != 0 {
                    let (id, off) = split(p);
                    match st.mem.get(id) { Some(o) if o.heap && off == 0 => st.mem.dealloc(id), _ => return Err(Ctl::End(End::Fault(format!("free of invalid pointer {:#x}", p)))) }
                }
                None
            }
            "bcmp" => { let (a, b, n) = (u!(0), u!(1), u!(2)); Some(self.cmpbytes(st, a, b, n, false)?) }
            "memcmp" => { let (a, b, n) = (u!(0), u!(1), u!(2)); Some(self.cmpbytes(st, a, b, n, true)?) }
            "memcpy" | "memmove" => { let (a, b, n) = (u!(0), u!(1), u!(2)); self.memcpy(st, a, b, n)?; Some(Val::I(a)) }
            "strlen" => {
                let p = u!(0);
                let mut n = 0;
                loop { let b = self.load_n(st, p + n, 1)?; let b = self.cu(st, &b)?; if b == 0 { break } n += 1 }
                Some(Val::I(n))
            }
            "getenv" => Some(Val::I(0)),
            "getrandom" => { let (p, n) = (u!(0), u!(1)); for i in 0..n { self.store_n(st, p + i, 1, &Val::I(0))? } Some(Val::I(n)) }
            "syscall" => { let nr = u!(0); if nr == 318 { let (p, n) = (u!(1), u!(2)); for i in 0..n { self.store_n(st, p + i, 1, &Val::I(0))? } Some(Val::I(n)) } else { Some(Val::I(0)) } }
            "write" => { let n = u!(2); Some(Val::I(n)) }
            "writev" => Some(Val::I(1)),
            "__errno_location" => { if st.errno == 0 { st.errno = st.mem.alloc(8, 0, false) } Some(Val::I(st.errno)) }
            "__cxa_thread_atexit_impl" | "pthread_atfork" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "munmap" | "close" | "gettid" | "poll" => Some(Val::I(if name == "gettid" { 1 } else { 0 })),
            "clock_gettime" => { let p = u!(1); self.store_n(st, p, 8, &Val::I(1_600_000_000))?; self.store_n(st, p + 8, 8, &Val::I(0))?; Some(Val::I(0)) }
            "abort" => return Err(Ctl::End(End::Panic("abort".into()))),
            _ => return Err(Ctl::End(End::Unsupported(format!("external function {}", name)))),
        })
    }
    fn bit(&mut self, v: &Val) -> E { match v { Val::I(n) => self.x.c((*n & 1) as u128, 1), Val::S(e) => { let w = self.x.w(*e); if w == 1 { *e } else { let z = self.x.c(0, w); let q = self.x.eq(*e, z); self.x.not(q) } } _ => panic!() } }
    fn intrinsic(&mut self, st: &mut State, name: &str, n: &str, ret: &Ty, av: &[Val], args: &Rc<Vec<(Ty, Op)>>) -> R<Option<Val>> {
        macro_rules! u { ($i:expr) => { self.cu(st, &av[$i])? } }
        if n.starts_with("lifetime") || n.starts_with("dbg") || n.starts_with("assume") || n.starts_with("experimental.noalias") || n.starts_with("prefetch") || n.starts_with("x86.sse2.pause") || n.starts_with("sideeffect") || n.starts_with("donothing") { return Ok(None) }
        if n.starts_with("memcpy") || n.starts_with("memmove") { let (a, b, k) = (u!(0), u!(1), u!(2)); self.memcpy(st, a, b, k)?; return Ok(None) }
        if n.starts_with("memset") {
            let (a, k) = (u!(0), u!(2));
            if k > 0 {
                match &av[1] {
                    Val::I(b) => { let off = split(a).1 as usize; let o = self.omut(st, a, k, "memset")?; for x in o.data[off..off + k as usize].iter_mut() { *x = *b as u8 } if let Some(s) = &mut o.sym { for x in s[off..off + k as usize].iter_mut() { *x = 0 } } }
                    v => for i in 0..k { self.store_n(st, a + i, 1, v)? },
                }
            }
            return Ok(None);
        }
        if n.contains(".with.overflow.") { return Ok(Some(self.ov(st, name, &av[0], &av[1])?)) }
        if n.starts_with("threadlocal.address") { return Ok(Some(av[0].clone())) }
        if n.starts_with("is.constant") { return Ok(Some(Val::I(0))) }
        if n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip") || n.starts_with("ssa.copy") { return Ok(Some(av[0].clone())) }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return Err(Ctl::End(End::Panic(self.blame(st, "trap".into())))) }
        if n.starts_with("x86.xgetbv") { return Ok(Some(Val::I(0))) }
        if let Ty::Vector(_, et) = &args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void) {
            let w = et.bits();
            if n.starts_with("vector.reduce.") {
                let op = n["vector.reduce.".len()..].split('.').next().unwrap();
                if let Val::A(xs) = &av[0] {
                    let mut r = xs[0].clone();
                    for x in xs[1..].iter() {
                        r = match op { "or" => self.bin(BinOp::Or, w, &r, x)?, "and" => self.bin(BinOp::And, w, &r, x)?, "xor" => self.bin(BinOp::Xor, w, &r, x)?, "add" => self.bin(BinOp::Add, w, &r, x)?, "mul" => self.bin(BinOp::Mul, w, &r, x)?,
                            "umax" | "umin" | "smax" | "smin" => self.minmax(op, w, &r, x)?, _ => return Err(Ctl::End(End::Unsupported(name.into()))) };
                    }
                    return Ok(Some(r));
                }
            }
            // lane-wise
            if let Val::A(xs) = &av[0] {
                let et = (**et).clone();
                let mut out = vec![];
                for i in 0..xs.len() {
                    let mut lane = vec![];
                    for a in av.iter() { lane.push(match a { Val::A(v) => v[i].clone(), v => v.clone() }) }
                    let largs = Rc::new(vec![(et.clone(), Op::C(Val::I(0))); lane.len()]);
                    let base = n.split(".v").next().unwrap();
                    let sname = format!("{}.i{}", base, et.bits());
                    match self.intrinsic(st, name, &sname, &et, &lane, &largs)? { Some(v) => out.push(v), None => return Err(Ctl::End(End::Unsupported(name.into()))) }
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
        }
        let w = args.first().map(|a| if a.0.is_scalar() { a.0.bits() } else { 0 }).unwrap_or(0);
        let base = n.split('.').next().unwrap();
        match base {
            "umin" | "umax" | "smin" | "smax" => return Ok(Some(self.minmax(base, w, &av[0], &av[1])?)),
            "usub" | "uadd" if n.contains(".sat.") => {
                let f = if base == "usub" { BinOp::Sub } else { BinOp::Add };
                let r = self.bin(f, w, &av[0], &av[1])?;
                let o = if base == "usub" { self.icmp(Pred::Ult, w, &av[0], &av[1])? } else { self.icmp(Pred::Ult, w, &r, &av[0])? };
                let s = if base == "usub" { Val::I(0) } else { Val::I(mask(w)) };
                return Ok(Some(match o { Val::I(1) => s, Val::I(_) => r, Val::S(c) => self.ite_val(w, c, &s, &r), _ => panic!() }));
            }
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let (l, g) = if base == "ucmp" { (self.icmp(Pred::Ult, w, &av[0], &av[1])?, self.icmp(Pred::Ugt, w, &av[0], &av[1])?) } else { (self.icmp(Pred::Slt, w, &av[0], &av[1])?, self.icmp(Pred::Sgt, w, &av[0], &av[1])?) };
                let (le, ge) = (self.to_e(&l, 1), self.to_e(&g, 1));
                let (neg, pos, z) = (self.x.c(mask(rw) as u128, rw), self.x.c(1, rw), self.x.c(0, rw));
                let t = self.x.ite(ge, pos, z);
                let r = self.x.ite(le, neg, t);
                return Ok(Some(self.from_e(r)));
            }
            "abs" => { let s = self.icmp(Pred::Slt, w, &av[0], &Val::I(0))?; let ng = self.bin(BinOp::Sub, w, &Val::I(0), &av[0])?; return Ok(Some(match s { Val::I(1) => ng, Val::I(_) => av[0].clone(), Val::S(c) => self.ite_val(w, c, &ng, &av[0]), _ => panic!() })) }
            "ctlz" => return Ok(Some(self.map1(st, &av[0], w, &|x| if x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) })?)),
            "cttz" => return Ok(Some(self.map1(st, &av[0], w, &|x| if x == 0 { w as u64 } else { x.trailing_zeros() as u64 })?)),
            "ctpop" => return Ok(Some(self.map1(st, &av[0], w, &|x| x.count_ones() as u64)?)),
            "bitreverse" => return Ok(Some(self.map1(st, &av[0], w, &|x| x.reverse_bits() >> (64 - w))?)),
            "bswap" => {
                if let Val::I(x) = &av[0] { return Ok(Some(Val::I(x.swap_bytes() >> (64 - w)))) }
                let e = self.to_e(&av[0], w);
                let mut r = self.x.extract(e, 0, 8);
                for i in 1..w / 8 { let b = self.x.extract(e, i * 8, 8); r = self.x.concat(r, b) }
                return Ok(Some(self.from_e(r)));
            }
            "fshl" | "fshr" => {
                let s = u!(2) % w as u64;
                if s == 0 { return Ok(Some(if base == "fshl" { av[0].clone() } else { av[1].clone() })) }
                let (l, r) = if base == "fshl" { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let p = self.bin(BinOp::Shl, w, &av[0], &Val::I(l))?;
                let q = self.bin(BinOp::LShr, w, &av[1], &Val::I(r))?;
                return Ok(Some(self.bin(BinOp::Or, w, &p, &q)?));
            }
            "fabs" | "floor" | "ceil" | "trunc" | "rint" | "round" | "sqrt" | "nearbyint" | "roundeven" => {
                let x = u!(0);
                let f = |x: f64| match base { "fabs" => x.abs(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), "sqrt" => x.sqrt(), _ => x.round_ties_even() };
                return Ok(Some(Val::I(if w == 64 { f(f64::from_bits(x)).to_bits() } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 })));
            }
            "fma" | "fmuladd" => { let (a, b, c) = (u!(0), u!(1), u!(2)); return Ok(Some(Val::I(f64::from_bits(a).mul_add(f64::from_bits(b), f64::from_bits(c)).to_bits()))) }
            "fptosi" | "fptoui" => {
                let x = u!(0);
                let x = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let rw = ret.bits();
                let r = if base == "fptoui" { (x as u64).min(mask(rw)) } else { let m = (mask(rw) >> 1) as i64; (x as i64).clamp(-m - 1, m) as u64 & mask(rw) };
                return Ok(Some(Val::I(r)));
            }
            "x86" if n.contains("pmovmskb") => {
                if let Val::A(xs) = &av[0] { let mut r = 0u64; for (i, x) in xs.clone().iter().enumerate() { let b = self.cu(st, x)?; r |= (b >> 7 & 1) << i } return Ok(Some(Val::I(r))) }
            }
            _ => {}
        }
        Err(Ctl::End(End::Unsupported(format!("intrinsic {}", name))))
    }
    fn minmax(&mut self, op: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        let p = match op { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
        let c = self.icmp(p, w, a, b)?;
        Ok(match c { Val::I(1) => a.clone(), Val::I(_) => b.clone(), Val::S(c) => self.ite_val(w, c, a, b), _ => panic!() })
    }
}

fn to_bits(t: &Ty) -> u16 { if t.is_scalar() { t.bits() } else { 999 } }

fn put_const(data: &mut [u8], off: usize, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Struct(..) | Ty::Array(..), Val::A(xs)) => for (i, x) in xs.iter().enumerate() { put_const(data, off + ty.field_off(i) as usize, &ty.field_ty(i), x) },
        (Ty::Vector(_, e), Val::A(xs)) => { let eb = e.bits() as usize; if eb % 8 == 0 { for (i, x) in xs.iter().enumerate() { put_const(data, off + i * eb / 8, e, x) } } }
        (_, Val::I(n)) => { let k = (ty.bits() as usize + 7) / 8; let b = n.to_le_bytes(); let m = k.min(8); data[off..off + m].copy_from_slice(&b[..m]) }
        (_, Val::W(n)) => { let k = (ty.bits() as usize + 7) / 8; data[off..off + k].copy_from_slice(&n.to_le_bytes()[..k]) }
        _ => panic!("constant"),
    }
}
