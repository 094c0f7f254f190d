//! Copy-on-write object memory with byte-wise symbolic overlay.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0 = concrete byte, otherwise an 8-bit expression
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Chunk {
    pub o: [Option<Rc<Obj>>; CH],
}

impl Chunk {
    fn new() -> Self {
        Chunk { o: std::array::from_fn(|_| None) }
    }
}

#[derive(Clone)]
pub struct Mem {
    pub t: Vec<Option<Rc<Chunk>>>,
    pub next: u32,
    pub free: Rc<Vec<u32>>,
    pub live: usize,
}

impl Mem {
    pub fn new(first_heap: u32) -> Mem {
        Mem { t: vec![], next: first_heap, free: Rc::new(vec![]), live: 0 }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.t.get(id as usize / CH)?.as_ref()?.o[id as usize % CH].as_ref()
    }
    pub fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let c = id as usize / CH;
        if self.t.len() <= c {
            self.t.resize(c + 1, None);
        }
        let ch = self.t[c].get_or_insert_with(|| Rc::new(Chunk::new()));
        &mut Rc::make_mut(ch).o[id as usize % CH]
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = id as usize / CH;
        let ch = self.t.get_mut(c)?.as_mut()?;
        let o = Rc::make_mut(ch).o[id as usize % CH].as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn alloc(&mut self, size: usize) -> u32 {
        let id = if !self.free.is_empty() {
            Rc::make_mut(&mut self.free).pop().unwrap()
        } else {
            self.next += 1;
            self.next - 1
        };
        self.live += 1;
        *self.slot(id) = Some(Rc::new(Obj { data: vec![0; size], sym: None, ro: false }));
        id
    }
    pub fn free(&mut self, id: u32) -> bool {
        let s = self.slot(id);
        if s.is_none() {
            return false;
        }
        *s = None;
        self.live -= 1;
        Rc::make_mut(&mut self.free).push(id);
        true
    }
}
