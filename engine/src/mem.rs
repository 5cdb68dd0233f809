//! Copy-on-write byte memory with a symbolic overlay.
use crate::expr::*;
use std::rc::Rc;

pub const PSZ: usize = 1024;
pub const CPAGES: usize = 64;
pub const CSZ: u64 = (PSZ * CPAGES) as u64;
pub const STACK_BASE: u64 = 0x7000_0000;
pub const STACK_TOP: u64 = 0x7200_0000;
pub const HEAP_BASE: u64 = 0x8000_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PSZ],
    pub s: Option<Box<[E; PSZ]>>,
}

#[derive(Clone)]
pub struct Chunk {
    p: [Option<Rc<Page>>; CPAGES],
}

#[derive(Clone)]
pub struct Mem {
    reg: [Vec<Option<Rc<Chunk>>>; 3],
    pub glob_top: u64,
    pub heap_top: u64,
    free: Vec<Rc<Vec<u64>>>,
    pub allocs: u64,
    pub live: u64,
}

#[derive(Debug)]
pub struct BadAddr(pub u64);

fn new_page() -> Rc<Page> {
    Rc::new(Page { d: [0; PSZ], s: None })
}

impl Mem {
    pub fn new(glob_top: u64) -> Mem {
        Mem {
            reg: [vec![], vec![], vec![]],
            glob_top,
            heap_top: HEAP_BASE,
            free: (0..65).map(|_| Rc::new(vec![])).collect(),
            allocs: 0,
            live: 0,
        }
    }
    #[inline(always)]
    fn locate(&self, a: u64) -> Result<(usize, usize, usize, usize), BadAddr> {
        let (r, base) = match a >> 28 {
            4..=6 => {
                if a >= self.glob_top {
                    return Err(BadAddr(a));
                }
                (0usize, crate::ir::GBASE)
            }
            7 => {
                if a >= STACK_TOP {
                    return Err(BadAddr(a));
                }
                (1, STACK_BASE)
            }
            8..=15 => {
                if a >= self.heap_top {
                    return Err(BadAddr(a));
                }
                (2, HEAP_BASE)
            }
            _ => return Err(BadAddr(a)),
        };
        let o = a - base;
        Ok((r, (o / CSZ) as usize, (o % CSZ) as usize / PSZ, o as usize % PSZ))
    }
    #[inline(always)]
    fn page(&self, a: u64) -> Result<(Option<&Page>, usize), BadAddr> {
        let (r, c, p, o) = self.locate(a)?;
        let pg = match self.reg[r].get(c) {
            Some(Some(ch)) => ch.p[p].as_deref(),
            _ => None,
        };
        Ok((pg, o))
    }
    #[inline(always)]
    fn page_mut(&mut self, a: u64) -> Result<(&mut Page, usize), BadAddr> {
        let (r, c, p, o) = self.locate(a)?;
        let reg = &mut self.reg[r];
        if reg.len() <= c {
            reg.resize(c + 1, None);
        }
        if reg[c].is_none() {
            reg[c] = Some(Rc::new(Chunk { p: std::array::from_fn(|_| None) }));
        }
        let ch = Rc::make_mut(reg[c].as_mut().unwrap());
        if ch.p[p].is_none() {
            ch.p[p] = Some(new_page());
        }
        Ok((Rc::make_mut(ch.p[p].as_mut().unwrap()), o))
    }
    #[inline(always)]
    pub fn load(&self, x: &mut Ctx, a: u64, n: usize) -> Result<Val, BadAddr> {
        if n <= 8 {
            let (pg, o) = self.page(a)?;
            if o + n <= PSZ {
                match pg {
                    None => return Ok(Val::c(0)),
                    Some(p) => {
                        if p.s.is_none() {
                            let mut b = [0u8; 8];
                            b[..n].copy_from_slice(&p.d[o..o + n]);
                            return Ok(Val::c(u64::from_le_bytes(b)));
                        }
                        let s = p.s.as_ref().unwrap();
                        if s[o..o + n].iter().all(|&e| e == 0) {
                            let mut b = [0u8; 8];
                            b[..n].copy_from_slice(&p.d[o..o + n]);
                            return Ok(Val::c(u64::from_le_bytes(b)));
                        }
                    }
                }
            }
        }
        let mut acc = self.byte(a)?;
        for k in 1..n {
            let b = self.byte(a + k as u64)?;
            acc = x.vconcat(b, 8, acc, 8 * k as u32);
        }
        Ok(acc)
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<Val, BadAddr> {
        let (pg, o) = self.page(a)?;
        Ok(match pg {
            None => Val::c(0),
            Some(p) => match &p.s {
                Some(s) if s[o] != 0 => Val { e: s[o], c: 0 },
                _ => Val::c(p.d[o] as u64),
            },
        })
    }
    #[inline]
    pub fn set_byte(&mut self, a: u64, v: Val) -> Result<(), BadAddr> {
        let (p, o) = self.page_mut(a)?;
        if v.e == 0 {
            p.d[o] = v.c as u8;
            if let Some(s) = &mut p.s {
                s[o] = 0;
            }
        } else {
            let s = p.s.get_or_insert_with(|| Box::new([0; PSZ]));
            s[o] = v.e;
        }
        Ok(())
    }
    #[inline(always)]
    pub fn store(&mut self, x: &mut Ctx, a: u64, v: Val, n: usize) -> Result<(), BadAddr> {
        if v.e == 0 && n <= 8 {
            let (p, o) = self.page_mut(a)?;
            if o + n <= PSZ {
                p.d[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
                if let Some(s) = &mut p.s {
                    s[o..o + n].fill(0);
                }
                return Ok(());
            }
        }
        for k in 0..n {
            let b = x.vextract(v, 8 * n as u32, 8 * k as u32, 8);
            self.set_byte(a + k as u64, b)?;
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), BadAddr> {
        let mut i = 0;
        while i < b.len() {
            let (p, o) = self.page_mut(a + i as u64)?;
            let n = (PSZ - o).min(b.len() - i);
            p.d[o..o + n].copy_from_slice(&b[i..i + n]);
            if let Some(s) = &mut p.s {
                s[o..o + n].fill(0);
            }
            i += n;
        }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, v: Val, n: u64) -> Result<(), BadAddr> {
        if v.e != 0 {
            for k in 0..n {
                self.set_byte(a + k, v)?;
            }
            return Ok(());
        }
        let mut i = 0;
        while i < n {
            let (p, o) = self.page_mut(a + i)?;
            let m = ((PSZ - o) as u64).min(n - i) as usize;
            p.d[o..o + m].fill(v.c as u8);
            if let Some(s) = &mut p.s {
                s[o..o + m].fill(0);
            }
            i += m as u64;
        }
        Ok(())
    }
    pub fn read(&self, a: u64, n: u64) -> Result<(Vec<u8>, Option<Vec<E>>), BadAddr> {
        let mut d = Vec::with_capacity(n as usize);
        let mut s: Option<Vec<E>> = None;
        let mut i = 0;
        while i < n {
            let (pg, o) = self.page(a + i)?;
            let m = ((PSZ - o) as u64).min(n - i) as usize;
            match pg {
                None => d.resize(d.len() + m, 0),
                Some(p) => {
                    d.extend_from_slice(&p.d[o..o + m]);
                    if let Some(ps) = &p.s {
                        if ps[o..o + m].iter().any(|&e| e != 0) {
                            let sv = s.get_or_insert_with(|| vec![0; n as usize]);
                            sv[i as usize..i as usize + m].copy_from_slice(&ps[o..o + m]);
                        }
                    }
                }
            }
            i += m as u64;
        }
        Ok((d, s))
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), BadAddr> {
        if n == 0 {
            return Ok(());
        }
        let (d, s) = self.read(src, n)?;
        self.write_bytes(dst, &d)?;
        if let Some(s) = s {
            for (k, e) in s.iter().enumerate() {
                if *e != 0 {
                    self.set_byte(dst + k as u64, Val { e: *e, c: 0 })?;
                }
            }
        }
        Ok(())
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        self.allocs += 1;
        self.live += 1;
        let size = size.max(1);
        let r = (size + 15) / 16 * 16;
        if r <= 1024 && align <= 16 {
            let cls = (r / 16) as usize;
            if !self.free[cls].is_empty() {
                return Rc::make_mut(&mut self.free[cls]).pop().unwrap();
            }
        }
        let a = (self.heap_top + align.max(16) - 1) / align.max(16) * align.max(16);
        if a + r > 0xf000_0000 {
            return 0;
        }
        self.heap_top = a + r;
        a
    }
    pub fn free(&mut self, a: u64, size: u64) {
        self.live = self.live.wrapping_sub(1);
        let r = (size.max(1) + 15) / 16 * 16;
        if size > 0 && r <= 1024 {
            Rc::make_mut(&mut self.free[(r / 16) as usize]).push(a);
        }
    }
}
