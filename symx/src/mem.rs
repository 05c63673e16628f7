//! Byte-addressed memory: address = object id << 32 | offset. Objects are copy-on-write.
use crate::val::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<(u32, u32, Val)>, // (offset, size, value), sorted, disjoint
    pub ro: bool,
}

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Chunk>, // objects in groups of CH, shared between states
    n: usize,
    free: Rc<Vec<u32>>,
}

impl Mem {
    pub fn new(objs: Vec<Option<Rc<Obj>>>) -> Mem {
        let n = objs.len();
        let mut chunks = vec![];
        let mut it = objs.into_iter();
        loop {
            let c: Vec<_> = it.by_ref().take(CH).collect();
            if c.is_empty() { break; }
            chunks.push(Rc::new(c));
        }
        Mem { chunks, n, free: Rc::new(vec![]) }
    }
    #[inline]
    fn obj(&self, id: usize) -> Option<&Rc<Obj>> { if id < self.n { self.chunks[id / CH][id % CH].as_ref() } else { None } }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size], sym: vec![], ro: false });
        let f = if self.free.is_empty() { None } else { Rc::make_mut(&mut self.free).pop() };
        let id = match f {
            Some(i) => { Rc::make_mut(&mut self.chunks[i as usize / CH])[i as usize % CH] = Some(o); i }
            None => {
                if self.n % CH == 0 { self.chunks.push(Rc::new(Vec::with_capacity(CH))); }
                Rc::make_mut(self.chunks.last_mut().unwrap()).push(Some(o));
                self.n += 1;
                (self.n - 1) as u32
            }
        };
        (id as u64) << 32
    }
    pub fn release(&mut self, addr: u64) -> Result<(), String> {
        let id = (addr >> 32) as usize;
        if self.obj(id).is_none() { return Err(format!("bad free {:x}", addr)); }
        Rc::make_mut(&mut self.chunks[id / CH])[id % CH] = None;
        Rc::make_mut(&mut self.free).push(id as u32);
        Ok(())
    }
    #[inline]
    pub fn get(&self, addr: u64, size: usize) -> Result<(&Obj, usize), String> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match self.obj(id) {
            Some(o) if off + size <= o.data.len() => Ok((o, off)),
            Some(o) => Err(format!("out-of-bounds access: object {} size {} offset {} len {}", id, o.data.len(), off, size)),
            _ => Err(format!("access to invalid address {:x} len {}", addr, size)),
        }
    }
    #[inline]
    pub fn get_mut(&mut self, addr: u64, size: usize) -> Result<(&mut Obj, usize), String> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match self.obj(id) {
            Some(o) if off + size <= o.data.len() => {
                if o.ro { return Err(format!("write to constant memory {:x}", addr)); }
            }
            Some(o) => return Err(format!("out-of-bounds write: object {} size {} offset {} len {}", id, o.data.len(), off, size)),
            _ => return Err(format!("write to invalid address {:x} len {}", addr, size)),
        }
        Ok((Rc::make_mut(Rc::make_mut(&mut self.chunks[id / CH])[id % CH].as_mut().unwrap()), off))
    }
    pub fn size_of(&self, addr: u64) -> Result<usize, String> {
        match self.obj((addr >> 32) as usize) { Some(o) => Ok(o.data.len()), _ => Err(format!("invalid address {:x}", addr)) }
    }
}

impl Obj {
    /// Symbolic entries overlapping [off, off+size)
    pub fn overlaps(&self, off: usize, size: usize) -> bool {
        !self.sym.is_empty() && self.sym.iter().any(|(o, s, _)| (*o as usize) < off + size && off < (*o + *s) as usize)
    }
    /// remove entries inside the range; returns Err(entry) if an entry is cut by the boundary
    pub fn clear(&mut self, off: usize, size: usize) -> Result<(), Val> {
        if self.sym.is_empty() { return Ok(()); }
        for (o, s, v) in &self.sym {
            let (a, b) = (*o as usize, (*o + *s) as usize);
            if a < off + size && off < b && (a < off || b > off + size) { return Err(v.clone()); }
        }
        self.sym.retain(|(o, s, _)| !((*o as usize) < off + size && off < (*o + *s) as usize));
        Ok(())
    }
    pub fn put_sym(&mut self, off: usize, size: usize, v: Val) {
        let k = self.sym.partition_point(|(o, _, _)| (*o as usize) < off);
        self.sym.insert(k, (off as u32, size as u32, v));
    }
}
