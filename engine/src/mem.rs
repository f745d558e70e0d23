//! Flat byte memory with copy-on-write pages, per-byte validity and symbolic bytes.
use crate::expr::*;
use std::rc::Rc;

pub const PB: u64 = 10;
pub const PS: usize = 1 << PB;

pub const GBASE: u64 = 0x0100_0000; // functions and globals
pub const HBASE: u64 = 0x10_0000_0000; // heap
pub const SBASE: u64 = 0x7f00_0000_0000; // stack

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub valid: [u64; PS / 64],
    pub sym: Option<Box<[E; PS]>>,
    pub nsym: u32,
}

impl Page {
    fn new() -> Page {
        Page { d: [0; PS], valid: [0; PS / 64], sym: None, nsym: 0 }
    }
}

#[derive(Clone, Default)]
pub struct Region {
    pub base: u64,
    pub pages: Vec<Option<Rc<Page>>>,
    pub allvalid: bool,
}

#[derive(Clone)]
pub struct Mem {
    pub r: [Region; 3],
}

#[derive(Debug, Clone, Copy)]
pub struct MemErr {
    pub addr: u64,
    pub write: bool,
}

impl Mem {
    pub fn new() -> Mem {
        let mk = |b, v| Region { base: b, pages: vec![], allvalid: v };
        Mem { r: [mk(GBASE, false), mk(HBASE, false), mk(SBASE, true)] }
    }
    #[inline]
    fn reg(addr: u64) -> usize {
        if addr >= SBASE {
            2
        } else if addr >= HBASE {
            1
        } else {
            0
        }
    }
    #[inline]
    fn page(&self, addr: u64) -> Option<&Page> {
        let r = &self.r[Self::reg(addr)];
        let i = (addr.wrapping_sub(r.base) >> PB) as usize;
        match r.pages.get(i) {
            Some(Some(p)) => Some(p),
            _ => None,
        }
    }
    #[inline]
    fn page_mut(&mut self, addr: u64) -> Option<&mut Page> {
        let r = &mut self.r[Self::reg(addr)];
        let i = (addr.wrapping_sub(r.base) >> PB) as usize;
        match r.pages.get_mut(i) {
            Some(Some(p)) => Some(Rc::make_mut(p)),
            _ => None,
        }
    }
    fn ensure(&mut self, addr: u64) {
        let r = &mut self.r[Self::reg(addr)];
        let i = (addr.wrapping_sub(r.base) >> PB) as usize;
        if r.pages.len() <= i {
            r.pages.resize(i + 1, None);
        }
        if r.pages[i].is_none() {
            r.pages[i] = Some(Rc::new(Page::new()));
            if r.allvalid {
                let p = Rc::make_mut(r.pages[i].as_mut().unwrap());
                p.valid = [!0; PS / 64];
            }
        }
    }
    /// make a range exist and (in)valid
    pub fn set_valid(&mut self, addr: u64, len: u64, v: bool) {
        let mut a = addr;
        let end = addr + len;
        while a < end {
            self.ensure(a);
            let o = (a & (PS as u64 - 1)) as usize;
            let n = (PS - o).min((end - a) as usize);
            let p = self.page_mut(a).unwrap();
            for i in o..o + n {
                if v {
                    p.valid[i >> 6] |= 1 << (i & 63);
                } else {
                    p.valid[i >> 6] &= !(1 << (i & 63));
                }
            }
            if !v && p.valid.iter().all(|x| *x == 0) {
                let r = &mut self.r[Self::reg(a)];
                let i = (a.wrapping_sub(r.base) >> PB) as usize;
                // keep the page if it still holds an allocation header
                let _ = i;
            }
            a += n as u64;
        }
    }
    pub fn ensure_range(&mut self, addr: u64, len: u64) {
        let mut a = addr & !(PS as u64 - 1);
        while a < addr + len {
            self.ensure(a);
            a += PS as u64;
        }
    }
    /// bytes that are never visible to the program (allocation headers)
    pub fn raw_write_u64(&mut self, addr: u64, v: u64) {
        for i in 0..8 {
            self.ensure(addr + i);
            let p = self.page_mut(addr + i).unwrap();
            p.d[((addr + i) & (PS as u64 - 1)) as usize] = (v >> (8 * i)) as u8;
        }
    }
    pub fn raw_read_u64(&self, addr: u64) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..8 {
            let p = self.page(addr + i)?;
            v |= (p.d[((addr + i) & (PS as u64 - 1)) as usize] as u64) << (8 * i);
        }
        Some(v)
    }
    pub fn is_valid(&self, addr: u64, len: u64) -> bool {
        for i in 0..len {
            match self.page(addr + i) {
                None => return false,
                Some(p) => {
                    let o = ((addr + i) & (PS as u64 - 1)) as usize;
                    if p.valid[o >> 6] >> (o & 63) & 1 == 0 {
                        return false;
                    }
                }
            }
        }
        true
    }
    #[inline]
    pub fn byte(&self, addr: u64) -> Result<(u8, E), MemErr> {
        let p = self.page(addr).ok_or(MemErr { addr, write: false })?;
        let o = (addr & (PS as u64 - 1)) as usize;
        if p.valid[o >> 6] >> (o & 63) & 1 == 0 {
            return Err(MemErr { addr, write: false });
        }
        let s = match &p.sym {
            None => 0,
            Some(s) => s[o],
        };
        Ok((p.d[o], s))
    }
    #[inline]
    pub fn set_byte(&mut self, addr: u64, v: u8, s: E) -> Result<(), MemErr> {
        let p = self.page_mut(addr).ok_or(MemErr { addr, write: true })?;
        let o = (addr & (PS as u64 - 1)) as usize;
        if p.valid[o >> 6] >> (o & 63) & 1 == 0 {
            return Err(MemErr { addr, write: true });
        }
        p.d[o] = v;
        if s != 0 {
            if p.sym.is_none() {
                p.sym = Some(Box::new([0; PS]));
            }
            let sy = p.sym.as_mut().unwrap();
            if sy[o] == 0 {
                p.nsym += 1;
            }
            sy[o] = s;
        } else if let Some(sy) = &mut p.sym {
            if sy[o] != 0 {
                sy[o] = 0;
                p.nsym -= 1;
                if p.nsym == 0 {
                    p.sym = None;
                }
            }
        }
        Ok(())
    }
    #[inline]
    fn vmask(n: usize, o: usize) -> (usize, u64, u64) {
        // bits o..o+n over two words
        let w = o >> 6;
        let s = o & 63;
        let full: u128 = ((1u128 << n) - 1) << s;
        (w, full as u64, (full >> 64) as u64)
    }
    /// fast concrete read; None when something in the range is symbolic
    #[inline]
    pub fn read(&self, addr: u64, n: usize) -> Result<Option<u128>, MemErr> {
        let o = (addr & (PS as u64 - 1)) as usize;
        if o + n <= PS {
            let p = self.page(addr).ok_or(MemErr { addr, write: false })?;
            let (w, m0, m1) = Self::vmask(n, o);
            if p.valid[w] & m0 != m0 || (m1 != 0 && p.valid[w + 1] & m1 != m1) {
                return Err(MemErr { addr, write: false });
            }
            if let Some(s) = &p.sym {
                for i in 0..n {
                    if s[o + i] != 0 {
                        return Ok(None);
                    }
                }
            }
            if n == 8 {
                let mut b = [0u8; 8];
                b.copy_from_slice(&p.d[o..o + 8]);
                return Ok(Some(u64::from_le_bytes(b) as u128));
            }
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | p.d[o + i] as u128;
            }
            return Ok(Some(v));
        }
        let mut v = 0u128;
        for i in 0..n {
            let (b, s) = self.byte(addr + i as u64)?;
            if s != 0 {
                return Ok(None);
            }
            v |= (b as u128) << (8 * i);
        }
        Ok(Some(v))
    }
    pub fn read_sym(&self, pool: &mut Pool, addr: u64, n: usize) -> Result<E, MemErr> {
        let mut acc: Option<E> = None;
        for i in 0..n {
            let (b, s) = self.byte(addr + i as u64)?;
            let e = if s != 0 { s } else { pool.cst(8, b as u128) };
            acc = Some(match acc {
                None => e,
                Some(lo) => pool.concat(e, lo),
            });
        }
        Ok(pool.norm(acc.unwrap()))
    }
    #[inline]
    pub fn write(&mut self, addr: u64, n: usize, v: u128) -> Result<(), MemErr> {
        let o = (addr & (PS as u64 - 1)) as usize;
        if o + n <= PS {
            let p = self.page_mut(addr).ok_or(MemErr { addr, write: true })?;
            let (w, m0, m1) = Self::vmask(n, o);
            if p.valid[w] & m0 != m0 || (m1 != 0 && p.valid[w + 1] & m1 != m1) {
                return Err(MemErr { addr, write: true });
            }
            if p.sym.is_none() {
                if n == 8 {
                    p.d[o..o + 8].copy_from_slice(&(v as u64).to_le_bytes());
                } else {
                    for i in 0..n {
                        p.d[o + i] = (v >> (8 * i)) as u8;
                    }
                }
                return Ok(());
            }
        }
        for i in 0..n {
            self.set_byte(addr + i as u64, (v >> (8 * i)) as u8, 0)?;
        }
        Ok(())
    }
    pub fn write_sym(&mut self, pool: &mut Pool, addr: u64, n: usize, e: E) -> Result<(), MemErr> {
        for i in 0..n {
            let b = pool.byte_of(e, 8 * i as u32);
            match pool.as_const(b) {
                Some(c) => self.set_byte(addr + i as u64, c as u8, 0)?,
                None => self.set_byte(addr + i as u64, 0, b)?,
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), MemErr> {
        // buffered copy: memmove semantics
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Option<Vec<E>> = None;
        let mut a = src;
        let end = src + n;
        while a < end {
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min((end - a) as usize);
            let p = self.page(a).ok_or(MemErr { addr: a, write: false })?;
            for i in o..o + k {
                if p.valid[i >> 6] >> (i & 63) & 1 == 0 {
                    return Err(MemErr { addr: a + (i - o) as u64, write: false });
                }
            }
            if let Some(s) = &p.sym {
                let sv = syms.get_or_insert_with(|| vec![]);
                sv.resize(buf.len(), 0);
                sv.extend_from_slice(&s[o..o + k]);
            } else if let Some(sv) = &mut syms {
                sv.resize(buf.len() + k, 0);
            }
            buf.extend_from_slice(&p.d[o..o + k]);
            a += k as u64;
        }
        let mut a = dst;
        let mut done = 0usize;
        let n = n as usize;
        while done < n {
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min(n - done);
            let any = syms.as_ref().map_or(false, |s| s[done..done + k].iter().any(|x| *x != 0));
            let p = self.page_mut(a).ok_or(MemErr { addr: a, write: true })?;
            for i in o..o + k {
                if p.valid[i >> 6] >> (i & 63) & 1 == 0 {
                    return Err(MemErr { addr: a + (i - o) as u64, write: true });
                }
            }
            p.d[o..o + k].copy_from_slice(&buf[done..done + k]);
            if any || p.sym.is_some() {
                if p.sym.is_none() {
                    p.sym = Some(Box::new([0; PS]));
                }
                let sy = p.sym.as_mut().unwrap();
                for i in 0..k {
                    let s = syms.as_ref().map_or(0, |v| v[done + i]);
                    let old = sy[o + i];
                    if old == 0 && s != 0 {
                        p.nsym += 1;
                    } else if old != 0 && s == 0 {
                        p.nsym -= 1;
                    }
                    sy[o + i] = s;
                }
                if p.nsym == 0 {
                    p.sym = None;
                }
            }
            a += k as u64;
            done += k;
        }
        Ok(())
    }
    pub fn drop_dead_pages(&mut self, addr: u64, len: u64) {
        // called after a free: drop pages strictly inside the freed block
        let r = &mut self.r[Self::reg(addr)];
        let first = (addr - r.base + PS as u64 - 1) >> PB;
        let last = (addr + len - r.base) >> PB;
        let mut i = first;
        while i < last {
            if let Some(x) = r.pages.get_mut(i as usize) {
                *x = None;
            }
            i += 1;
        }
    }
}
