//! Object memory with copy-on-write sharing between states.
use crate::expr::*;
use crate::ll::{obj_addr, Module, Val, OBJ_BASE, OBJ_SHIFT};
use std::sync::Arc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<Option<E>>>,
    pub ro: bool,
}

const CH: usize = 64;
type Chunk = Vec<Option<Arc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Arc<Chunk>>,
    free: Vec<u32>,
    next: u32,
    pub live: u32, pub bytes: u64,
}

pub fn split(addr: u64) -> (u32, u64) {
    ((addr >> OBJ_SHIFT) as u32, (addr & ((1 << OBJ_SHIFT) - 1)).wrapping_sub(OBJ_BASE))
}

#[derive(Clone)]
pub enum Byte { C(u8), S(E) }

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let mut mem = Mem { chunks: vec![], free: vec![], next: m.nslots as u32, live: 0, bytes: 0 };
        for g in &m.globals {
            mem.put(g.slot as u32, Some(Arc::new(Obj { data: g.data.clone(), sym: None, ro: g.is_const })));
        }
        mem
    }
    fn put(&mut self, slot: u32, o: Option<Arc<Obj>>) {
        let (c, i) = (slot as usize / CH, slot as usize % CH);
        while self.chunks.len() <= c { self.chunks.push(Arc::new(vec![None; CH])); }
        Arc::make_mut(&mut self.chunks[c])[i] = o;
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let slot = match self.free.pop() { Some(s) => s, None => { self.next += 1; self.next - 1 } };
        self.put(slot, Some(Arc::new(Obj { data: vec![0; size as usize], sym: None, ro: false })));
        self.live += 1;
        self.bytes += size;
        obj_addr(slot as u64)
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let (slot, off) = split(addr);
        if off != 0 || self.get(slot).is_none() { return Err(format!("invalid free of {:#x}", addr)); }
        self.bytes -= self.get(slot).map_or(0, |o| o.data.len() as u64);
        self.put(slot, None);
        self.free.push(slot);
        self.live -= 1;
        Ok(())
    }
    #[inline]
    pub fn get(&self, slot: u32) -> Option<&Obj> {
        self.chunks.get(slot as usize / CH).and_then(|c| c[slot as usize % CH].as_deref())
    }
    #[inline]
    fn get_mut(&mut self, slot: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(slot as usize / CH)?;
        let c = Arc::make_mut(c);
        c[slot as usize % CH].as_mut().map(Arc::make_mut)
    }
    pub fn load(&self, addr: u64, n: usize, bits: u32) -> Result<Val, String> {
        let (slot, off) = split(addr);
        let o = match self.get(slot) { Some(o) => o, None => return Err(format!("load of {} bytes from invalid address {:#x}", n, addr)) };
        let off = off as usize;
        if off > o.data.len() || n > o.data.len() - off { return Err(format!("out of bounds load of {} bytes at offset {} of object of {} bytes", n, off as i64, o.data.len())); }
        if let Some(sym) = &o.sym {
            if sym[off..off + n].iter().any(|x| x.is_some()) {
                let mut e: Option<E> = None;
                for i in 0..n {
                    let b = match &sym[off + i] { Some(x) => x.clone(), None => cst(o.data[off + i] as u128, 8) };
                    e = Some(match e { None => b, Some(lo) => concat(&b, &lo) });
                }
                let e = e.unwrap();
                let e = if bits < e.w { extract(&e, 0, bits) } else { e };
                return Ok(match as_const(&e) { Some(c) => Val::int(c, bits), None => Val::S(e) });
            }
        }
        let d = &o.data[off..off + n];
        Ok(match n {
            1 => Val::I(mask(d[0] as u128, bits) as u64),
            2 => Val::I(mask(u16::from_le_bytes([d[0], d[1]]) as u128, bits) as u64),
            4 => Val::I(mask(u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u128, bits) as u64),
            8 => Val::I(mask(u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]) as u128, bits) as u64),
            _ => {
                let mut v: u128 = 0;
                for i in (0..n).rev() { v = (v << 8) | d[i] as u128; }
                Val::int(mask(v, bits), bits)
            }
        })
    }
    pub fn store(&mut self, addr: u64, n: usize, v: &Val) -> Result<(), String> {
        let (slot, off) = split(addr);
        let o = match self.get_mut(slot) { Some(o) => o, None => return Err(format!("store of {} bytes to invalid address {:#x}", n, addr)) };
        let off = off as usize;
        if off > o.data.len() || n > o.data.len() - off { return Err(format!("out of bounds store of {} bytes at offset {} of object of {} bytes", n, off as i64, o.data.len())); }
        if o.ro { return Err(format!("store to constant memory {:#x}", addr)); }
        match v {
            Val::I(x) => {
                let b = x.to_le_bytes();
                if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    for i in 8..n { o.data[off + i] = 0; }
                }
                if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = None; } }
            }
            Val::B(x) => {
                let b = x.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = None; } }
            }
            Val::S(e) => {
                if o.sym.is_none() { o.sym = Some(vec![None; o.data.len()]); }
                let e = if e.w as usize == n * 8 { e.clone() } else { zext(e, (n * 8) as u32) };
                for i in 0..n {
                    let b = extract(&e, (i * 8) as u32, 8);
                    match as_const(&b) {
                        Some(c) => { o.data[off + i] = c as u8; o.sym.as_mut().unwrap()[off + i] = None; }
                        None => o.sym.as_mut().unwrap()[off + i] = Some(b),
                    }
                }
            }
            Val::A(_) => return Err("aggregate store".into()),
        }
        Ok(())
    }
    pub fn bytes(&self, addr: u64, n: usize) -> Result<Vec<Byte>, String> {
        if n == 0 { return Ok(vec![]); }
        let (slot, off) = split(addr);
        let o = match self.get(slot) { Some(o) => o, None => return Err(format!("read of {} bytes from invalid address {:#x}", n, addr)) };
        let off = off as usize;
        if off > o.data.len() || n > o.data.len() - off { return Err(format!("out of bounds read of {} bytes at offset {} of object of {} bytes", n, off as i64, o.data.len())); }
        Ok(match &o.sym {
            None => o.data[off..off + n].iter().map(|b| Byte::C(*b)).collect(),
            Some(s) => (off..off + n).map(|i| match &s[i] { Some(e) => Byte::S(e.clone()), None => Byte::C(o.data[i]) }).collect(),
        })
    }
    pub fn set_byte(&mut self, addr: u64, b: Byte) -> Result<(), String> {
        match b { Byte::C(c) => self.store(addr, 1, &Val::I(c as u64)), Byte::S(e) => self.store(addr, 1, &Val::S(e)) }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (ss, so) = split(src);
        let (ds, dof) = split(dst);
        let (so, dof) = (so as usize, dof as usize);
        let (data, sym) = {
            let o = self.get(ss).ok_or_else(|| format!("copy from invalid address {:#x}", src))?;
            if so > o.data.len() || n > o.data.len() - so { return Err(format!("out of bounds copy source: {} bytes at offset {} of {}", n, so as i64, o.data.len())); }
            let sym = match &o.sym { Some(s) if s[so..so + n].iter().any(|x| x.is_some()) => Some(s[so..so + n].to_vec()), _ => None };
            (o.data[so..so + n].to_vec(), sym)
        };
        let o = self.get_mut(ds).ok_or_else(|| format!("copy to invalid address {:#x}", dst))?;
        if dof > o.data.len() || n > o.data.len() - dof { return Err(format!("out of bounds copy target: {} bytes at offset {} of {}", n, dof as i64, o.data.len())); }
        if o.ro { return Err("copy to constant memory".into()); }
        o.data[dof..dof + n].copy_from_slice(&data);
        match sym {
            Some(s) => {
                if o.sym.is_none() { o.sym = Some(vec![None; o.data.len()]); }
                o.sym.as_mut().unwrap()[dof..dof + n].clone_from_slice(&s);
            }
            None => if let Some(s) = &mut o.sym { for i in dof..dof + n { s[i] = None; } },
        }
        Ok(())
    }
    pub fn size_of(&self, addr: u64) -> Option<usize> { self.get(split(addr).0).map(|o| o.data.len()) }
}
