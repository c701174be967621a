//! Copy-on-write memory: objects in 1 MiB address slots.
use crate::expr::E;
use crate::ir::SLOT;
use std::rc::Rc;

/// Concrete bytes plus, where symbolic, an expression id + 1 per byte.
#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub ro: bool, pub heap: bool, /** per byte: who wrote it last and when, and when each thread read it last (only while threads run) */ pub sh: Option<Vec<[u16; 5]>> }
#[derive(Clone)]
pub enum Slot { Empty, Obj(Rc<Obj>), Cont(u32) }
const PG: usize = 64;
type Page = Vec<Slot>;
#[derive(Clone)]
pub struct Mem { pages: Vec<Rc<Page>>, free: Vec<u32>, next: u32, pub live_heap: u64 }

impl Mem {
    pub fn new(first: u64) -> Mem { Mem { pages: vec![], free: vec![], next: first as u32, live_heap: 0 } }
    fn set(&mut self, s: u32, v: Slot) {
        let p = s as usize / PG;
        while self.pages.len() <= p { self.pages.push(Rc::new(vec![Slot::Empty; PG])); }
        Rc::make_mut(&mut self.pages[p])[s as usize % PG] = v;
    }
    pub fn place(&mut self, addr: u64, o: Obj) {
        let n = (o.data.len() as u64 + SLOT - 1) / SLOT;
        let s = (addr / SLOT) as u32;
        self.set(s, Slot::Obj(Rc::new(o)));
        for i in 1..n as u32 { self.set(s + i, Slot::Cont(s)); }
    }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let n = ((size + SLOT - 1) / SLOT).max(1) as u32;
        let s = if n == 1 { match self.free.pop() { Some(s) => s, None => { self.next += 1; self.next - 1 } } } else { let s = self.next; self.next += n; s };
        if heap { self.live_heap += size; }
        self.set(s, Slot::Obj(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, heap, sh: None })));
        for i in 1..n { self.set(s + i, Slot::Cont(s)); }
        s as u64 * SLOT
    }
    pub fn free(&mut self, addr: u64) -> bool {
        if addr % SLOT != 0 { return false; }
        let s = (addr / SLOT) as u32;
        let (n, heap, size) = match self.slot(s) { Slot::Obj(o) => ((o.data.len() as u64 + SLOT - 1) / SLOT, o.heap, o.data.len() as u64), _ => return false };
        if heap { self.live_heap -= size; }
        self.set(s, Slot::Empty);
        for i in 1..n.max(1) as u32 { self.set(s + i, Slot::Empty); }
        if n <= 1 { self.free.push(s); }
        true
    }
    #[inline] pub fn slot(&self, s: u32) -> &Slot {
        match self.pages.get(s as usize / PG) { Some(p) => &p[s as usize % PG], None => &Slot::Empty }
    }
    /// The object at an address and the offset in it, if `n` bytes fit.
    #[inline] pub fn get(&self, addr: u64, n: u64) -> Option<(&Obj, usize)> {
        let s = (addr / SLOT) as u32; let mut off = addr % SLOT;
        if addr / SLOT > u32::MAX as u64 { return None; }
        let o = match self.slot(s) {
            Slot::Obj(o) => o,
            Slot::Cont(b) => { off += (s - b) as u64 * SLOT; match self.slot(*b) { Slot::Obj(o) => o, _ => return None } }
            Slot::Empty => return None,
        };
        if off + n <= o.data.len() as u64 { Some((o, off as usize)) } else { None }
    }
    #[inline] pub fn get_mut(&mut self, addr: u64, n: u64) -> Option<(&mut Obj, usize)> {
        if addr / SLOT > u32::MAX as u64 { return None; }
        let mut s = (addr / SLOT) as u32; let mut off = addr % SLOT;
        if let Slot::Cont(b) = self.slot(s) { off += (s - b) as u64 * SLOT; s = *b; }
        if let Some(p) = self.pages.get_mut(s as usize / PG) {
            if let Slot::Obj(o) = &mut Rc::make_mut(p)[s as usize % PG] {
                if o.ro || off + n > o.data.len() as u64 { return None; }
                return Some((Rc::make_mut(o), off as usize));
            }
        }
        None
    }
}
