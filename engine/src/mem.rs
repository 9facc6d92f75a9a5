//! Object based memory.  An address is (object id << 32) | offset.
use crate::term::*;
use std::rc::Rc;

pub const REG_GLOBAL: u32 = 0x0100_0000;
pub const REG_FUNC: u32 = 0x0200_0000;
pub const REG_STACK: u32 = 0x1000_0000;
pub const REG_HEAP: u32 = 0x2000_0000;

#[inline]
pub fn addr_of(id: u32) -> u64 { (id as u64) << 32 }

#[derive(Clone, Debug)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<T>>, pub constant: bool, pub alive: bool }

#[derive(Clone, Default)]
pub struct Mem { pub globals: Vec<Rc<Obj>>, pub stack: Vec<Rc<Obj>>, pub heap: Vec<Option<Rc<Obj>>> }

#[derive(Debug)]
pub enum MemErr { Null(u64), Oob(u64, usize, usize), Dead(u64), Const(u64) }

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, constant: false, alive: true } }
    #[inline]
    pub fn is_concrete(&self, off: usize, n: usize) -> bool {
        match &self.sym { None => true, Some(s) => s[off..off + n].iter().all(|&t| t == 0) }
    }
    pub fn read(&self, off: usize, n: usize) -> Result<u64, T> {
        // n <= 8 concrete fast path
        if n <= 8 && self.is_concrete(off, n) {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&self.data[off..off + n]);
            return Ok(u64::from_le_bytes(b));
        }
        let m = tm();
        let mut acc: T = 0;
        for i in 0..n {
            let bt = match &self.sym { Some(s) if s[off + i] != 0 => s[off + i], _ => m.cst(8, self.data[off + i] as u128) };
            acc = if i == 0 { bt } else { m.concat(bt, acc) };
        }
        Err(acc)
    }
    pub fn write_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym { for x in &mut s[off..off + b.len()] { *x = 0; } }
    }
    pub fn write_term(&mut self, off: usize, t: T, n: usize) {
        let m = tm();
        for i in 0..n {
            let lo = 8 * i as u16;
            let e = m.extract(t, lo + 7, lo);
            self.write_byte(off + i, e);
        }
    }
    pub fn write_byte(&mut self, off: usize, e: T) {
        if let Some(k) = tm().is_const(e) {
            self.data[off] = k as u8;
            if let Some(s) = &mut self.sym { s[off] = 0; }
        } else {
            let n = self.data.len();
            self.sym.get_or_insert_with(|| vec![0; n])[off] = e;
        }
    }
    pub fn byte(&self, off: usize) -> T {
        match &self.sym { Some(s) if s[off] != 0 => s[off], _ => tm().cst(8, self.data[off] as u128) }
    }
}

impl Mem {
    #[inline]
    pub fn obj(&self, addr: u64, n: usize) -> Result<(&Obj, usize), MemErr> {
        let id = (addr >> 32) as u32;
        let off = addr as u32 as usize;
        let o: &Rc<Obj> = if id >= REG_HEAP {
            match self.heap.get((id - REG_HEAP) as usize) { Some(Some(o)) => o, _ => return Err(MemErr::Dead(addr)) }
        } else if id >= REG_STACK {
            match self.stack.get((id - REG_STACK) as usize) { Some(o) => o, _ => return Err(MemErr::Dead(addr)) }
        } else if id >= REG_GLOBAL && id < REG_FUNC {
            match self.globals.get((id - REG_GLOBAL) as usize) { Some(o) => o, _ => return Err(MemErr::Dead(addr)) }
        } else { return Err(MemErr::Null(addr)) };
        if off + n > o.data.len() { return Err(MemErr::Oob(addr, n, o.data.len())); }
        Ok((o, off))
    }
    #[inline]
    pub fn obj_mut(&mut self, addr: u64, n: usize) -> Result<(&mut Obj, usize), MemErr> {
        let id = (addr >> 32) as u32;
        let off = addr as u32 as usize;
        let o: &mut Rc<Obj> = if id >= REG_HEAP {
            match self.heap.get_mut((id - REG_HEAP) as usize) { Some(Some(o)) => o, _ => return Err(MemErr::Dead(addr)) }
        } else if id >= REG_STACK {
            match self.stack.get_mut((id - REG_STACK) as usize) { Some(o) => o, _ => return Err(MemErr::Dead(addr)) }
        } else if id >= REG_GLOBAL && id < REG_FUNC {
            match self.globals.get_mut((id - REG_GLOBAL) as usize) { Some(o) => o, _ => return Err(MemErr::Dead(addr)) }
        } else { return Err(MemErr::Null(addr)) };
        if off + n > o.data.len() { return Err(MemErr::Oob(addr, n, o.data.len())); }
        if o.constant { return Err(MemErr::Const(addr)); }
        Ok((Rc::make_mut(o), off))
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.heap.len() as u32;
        self.heap.push(Some(Rc::new(Obj::new(n))));
        addr_of(REG_HEAP + id)
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MemErr> {
        if addr == 0 { return Ok(()); }
        let id = (addr >> 32) as u32;
        if id < REG_HEAP || addr as u32 != 0 { return Err(MemErr::Null(addr)); }
        match self.heap.get_mut((id - REG_HEAP) as usize) { Some(s @ Some(_)) => { *s = None; Ok(()) } _ => Err(MemErr::Dead(addr)) }
    }
    pub fn push_stack(&mut self, n: usize) -> u64 {
        let id = self.stack.len() as u32;
        self.stack.push(Rc::new(Obj::new(n)));
        addr_of(REG_STACK + id)
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.obj(src, n)?;
        let data = so.data[soff..soff + n].to_vec();
        let sym = match &so.sym { Some(s) => { let v = &s[soff..soff + n]; if v.iter().any(|&t| t != 0) { Some(v.to_vec()) } else { None } } None => None };
        let (d, doff) = self.obj_mut(dst, n)?;
        d.write_conc(doff, &data);
        if let Some(s) = sym {
            let len = d.data.len();
            let ds = d.sym.get_or_insert_with(|| vec![0; len]);
            ds[doff..doff + n].copy_from_slice(&s);
        }
        Ok(())
    }
    pub fn bytes(&self, addr: u64, n: usize) -> Option<Vec<u8>> {
        let (o, off) = self.obj(addr, n).ok()?;
        if !o.is_concrete(off, n) { return None; }
        Some(o.data[off..off + n].to_vec())
    }
}
