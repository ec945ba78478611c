//! Byte-addressed memory: an address is (object id << 32 | offset).
use crate::expr::E;
use std::rc::Rc;

pub const CH: usize = 32;
pub const STACK_BASE: u32 = 0x2000_0000;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub ro: bool }
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem { heap: Vec<Rc<Chunk>>, stack: Vec<Rc<Chunk>>, free: Vec<u32>, nheap: u32, pub nstack: u32, pub live: u64 }

fn empty() -> Rc<Chunk> { Rc::new(std::array::from_fn(|_| None)) }

impl Mem {
    pub fn new() -> Mem { Mem { heap: vec![], stack: vec![], free: vec![], nheap: 1, nstack: 0, live: 0 } }
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let (v, i) = if id >= STACK_BASE { (&mut self.stack, (id - STACK_BASE) as usize) } else { (&mut self.heap, id as usize) };
        while v.len() <= i / CH { v.push(empty()) }
        &mut Rc::make_mut(&mut v[i / CH])[i % CH]
    }
    #[inline] pub fn get(&self, id: u32) -> Option<&Obj> {
        let (v, i) = if id >= STACK_BASE { (&self.stack, (id - STACK_BASE) as usize) } else { (&self.heap, id as usize) };
        v.get(i / CH).and_then(|c| c[i % CH].as_deref())
    }
    #[inline] pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let (v, i) = if id >= STACK_BASE { (&mut self.stack, (id - STACK_BASE) as usize) } else { (&mut self.heap, id as usize) };
        match v.get_mut(i / CH) { Some(c) => match &mut Rc::make_mut(c)[i % CH] { Some(o) => Some(Rc::make_mut(o)), None => None }, None => None }
    }
    pub fn add_global(&mut self, data: Vec<u8>, ro: bool) -> u32 {
        let id = self.nheap; self.nheap += 1;
        *self.slot(id) = Some(Rc::new(Obj { data, sym: None, ro })); id
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let id = match self.free.pop() { Some(i) => i, None => { self.nheap += 1; self.nheap - 1 } };
        self.live += size as u64;
        *self.slot(id) = Some(Rc::new(Obj { data: vec![0; size], sym: None, ro: false }));
        (id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> bool {
        let id = (addr >> 32) as u32;
        if addr as u32 != 0 || id >= STACK_BASE { return false; }
        match self.slot(id).take() { Some(o) => { self.live -= o.data.len() as u64; self.free.push(id); true } None => false }
    }
    pub fn push_stack(&mut self, size: usize) -> u64 {
        let id = STACK_BASE + self.nstack; self.nstack += 1;
        *self.slot(id) = Some(Rc::new(Obj { data: vec![0; size], sym: None, ro: false }));
        (id as u64) << 32
    }
    pub fn pop_stack(&mut self, to: u32) {
        while self.nstack > to { self.nstack -= 1; let id = STACK_BASE + self.nstack; *self.slot(id) = None; }
    }
}
