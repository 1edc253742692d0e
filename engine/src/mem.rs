//! Object memory: address = id << 32 | offset. Persistent (copy-on-write) so that states fork cheaply.
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 = concrete, otherwise expression id + 1
    pub sym: Option<Vec<u32>>,
    pub ro: bool,
    /// allocated through the heap allocator
    pub heap: bool,
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem { tab: Vec<Option<Rc<Chunk>>>, pub next: u64, free: Vec<u32>, pub live: i64 }

pub fn split(a: u64) -> (u64, u64) { (a >> 32, a & 0xffff_ffff) }

impl Mem {
    pub fn new(first: u64) -> Mem { Mem { tab: vec![], next: first, free: vec![], live: 0 } }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        match self.tab.get(id as usize / CH) { Some(Some(c)) => c[id as usize % CH].as_ref(), _ => None }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        match self.tab.get_mut(id as usize / CH) {
            Some(Some(c)) => { let c = Rc::make_mut(c); c[id as usize % CH].as_mut().map(|o| Rc::make_mut(o)) }
            _ => None,
        }
    }
    pub fn put(&mut self, id: u64, o: Rc<Obj>) {
        let k = id as usize / CH;
        if k >= self.tab.len() { self.tab.resize(k + 1, None) }
        let c = self.tab[k].get_or_insert_with(|| { const N: Option<Rc<Obj>> = None; Rc::new([N; CH]) });
        Rc::make_mut(c)[id as usize % CH] = Some(o);
    }
    pub fn alloc(&mut self, size: u64, fill: u8, heap: bool) -> u64 {
        let id = match self.free.pop() { Some(i) => i as u64, None => { let i = self.next; self.next += 1; i } };
        self.put(id, Rc::new(Obj { data: vec![fill; size as usize], sym: None, ro: false, heap }));
        self.live += 1;
        id << 32
    }
    pub fn dealloc(&mut self, id: u64) {
        if let Some(Some(c)) = self.tab.get_mut(id as usize / CH) { Rc::make_mut(c)[id as usize % CH] = None }
        self.free.push(id as u32);
        self.live -= 1;
    }
}
