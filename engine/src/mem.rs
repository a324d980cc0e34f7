//! Copy-on-write byte memory with a symbolic shadow.
use crate::expr::E;
use crate::ir::GLOBAL_BASE;
use std::rc::Rc;

pub const PG: usize = 1024;
const CH: usize = 256; // pages per chunk
pub const HEAP_BASE: u64 = 0x4000_0000;
pub const STACK_TOP: u64 = 0xA000_0000;
pub const STACK_MIN: u64 = 0x9800_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PG],
    pub s: Option<Box<[E; PG]>>,
}
type Chunk = [Option<Rc<Page>>; CH];

#[derive(Clone)]
pub struct Mem {
    g: Vec<Option<Rc<Chunk>>>,
    h: Vec<Option<Rc<Chunk>>>,
    s: Vec<Option<Rc<Chunk>>>, // indexed downwards from STACK_TOP
    pub glen: u64,
    pub brk: u64,
    pub sp: u64,
}

pub struct Fault(pub u64);

fn empty_chunk() -> Rc<Chunk> {
    Rc::new(std::array::from_fn(|_| None))
}

impl Mem {
    pub fn new(image: &[u8]) -> Mem {
        let mut m = Mem { g: vec![], h: vec![], s: vec![], glen: image.len() as u64, brk: HEAP_BASE, sp: STACK_TOP - 4096 };
        let mut o = 0;
        while o < image.len() {
            let n = PG.min(image.len() - o);
            let a = GLOBAL_BASE + o as u64;
            m.page_mut(a).ok().unwrap().d[..n].copy_from_slice(&image[o..o + n]);
            o += n;
        }
        m
    }
    #[inline]
    fn locate(&self, a: u64) -> Result<(&Vec<Option<Rc<Chunk>>>, usize), Fault> {
        if a >= HEAP_BASE {
            if a < self.brk {
                return Ok((&self.h, ((a - HEAP_BASE) / PG as u64) as usize));
            }
            if a >= STACK_MIN && a < STACK_TOP {
                return Ok((&self.s, ((STACK_TOP - 1 - a) / PG as u64) as usize));
            }
        } else if a >= GLOBAL_BASE && a < GLOBAL_BASE + self.glen {
            return Ok((&self.g, ((a - GLOBAL_BASE) / PG as u64) as usize));
        }
        Err(Fault(a))
    }
    #[inline]
    pub fn page(&self, a: u64) -> Result<Option<&Page>, Fault> {
        let (v, i) = self.locate(a)?;
        match v.get(i / CH) {
            Some(Some(c)) => Ok(c[i % CH].as_deref()),
            _ => Ok(None),
        }
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let i;
        let v = if a >= HEAP_BASE {
            if a < self.brk {
                i = ((a - HEAP_BASE) / PG as u64) as usize;
                &mut self.h
            } else if a >= STACK_MIN && a < STACK_TOP {
                i = ((STACK_TOP - 1 - a) / PG as u64) as usize;
                &mut self.s
            } else {
                return Err(Fault(a));
            }
        } else if a >= GLOBAL_BASE && a < GLOBAL_BASE + self.glen {
            i = ((a - GLOBAL_BASE) / PG as u64) as usize;
            &mut self.g
        } else {
            return Err(Fault(a));
        };
        let (c, p) = (i / CH, i % CH);
        if c >= v.len() {
            v.resize(c + 1, None);
        }
        let ch = v[c].get_or_insert_with(empty_chunk);
        let ch = Rc::make_mut(ch);
        let pg = ch[p].get_or_insert_with(|| Rc::new(Page { d: [0; PG], s: None }));
        Ok(Rc::make_mut(pg))
    }
    /// Concrete read of n <= 8 bytes; None if some byte is symbolic.
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = a as usize % PG;
        if o + n <= PG {
            match self.page(a)? {
                None => Ok(Some(0)),
                Some(p) => {
                    if let Some(s) = &p.s {
                        for k in 0..n {
                            if s[o + k] != 0 {
                                return Ok(None);
                            }
                        }
                    }
                    let d = &p.d;
                    Ok(Some(match n {
                        1 => d[o] as u64,
                        2 => u16::from_le_bytes([d[o], d[o + 1]]) as u64,
                        4 => u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64,
                        8 => u64::from_le_bytes(d[o..o + 8].try_into().unwrap()),
                        _ => {
                            let mut r = 0;
                            for k in 0..n {
                                r |= (d[o + k] as u64) << (8 * k);
                            }
                            r
                        }
                    }))
                }
            }
        } else {
            let mut r = 0u64;
            for k in 0..n {
                match self.byte(a + k as u64)? {
                    (_, e) if e != 0 => return Ok(None),
                    (b, _) => r |= (b as u64) << (8 * k),
                }
            }
            Ok(Some(r))
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, E), Fault> {
        let o = a as usize % PG;
        match self.page(a)? {
            None => Ok((0, 0)),
            Some(p) => Ok((p.d[o], p.s.as_ref().map(|s| s[o]).unwrap_or(0))),
        }
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = a as usize % PG;
        if o + n <= PG {
            let p = self.page_mut(a)?;
            match n {
                1 => p.d[o] = v as u8,
                8 => p.d[o..o + 8].copy_from_slice(&v.to_le_bytes()),
                _ => {
                    for k in 0..n {
                        p.d[o + k] = (v >> (8 * k)) as u8;
                    }
                }
            }
            if let Some(s) = &mut p.s {
                for k in 0..n {
                    s[o + k] = 0;
                }
            }
            Ok(())
        } else {
            for k in 0..n {
                self.set_byte(a + k as u64, (v >> (8 * k)) as u8, 0)?;
            }
            Ok(())
        }
    }
    #[inline]
    pub fn set_byte(&mut self, a: u64, b: u8, e: E) -> Result<(), Fault> {
        let o = a as usize % PG;
        let p = self.page_mut(a)?;
        p.d[o] = b;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PG]))[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        if n > 1 << 28 {
            return Err(Fault(src));
        }
        let mut d = vec![0u8; n as usize];
        let mut s: Option<Vec<E>> = None;
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let o = a as usize % PG;
            let k = (PG - o).min((n - i) as usize);
            // the last byte must be mapped too
            self.locate(a + k as u64 - 1)?;
            if let Some(p) = self.page(a)? {
                d[i as usize..i as usize + k].copy_from_slice(&p.d[o..o + k]);
                if let Some(sh) = &p.s {
                    if sh[o..o + k].iter().any(|&x| x != 0) {
                        let v = s.get_or_insert_with(|| vec![0; n as usize]);
                        v[i as usize..i as usize + k].copy_from_slice(&sh[o..o + k]);
                    }
                }
            }
            i += k as u64;
        }
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let o = a as usize % PG;
            let k = (PG - o).min((n - i) as usize);
            self.locate(a + k as u64 - 1)?;
            let p = self.page_mut(a)?;
            p.d[o..o + k].copy_from_slice(&d[i as usize..i as usize + k]);
            match &s {
                Some(v) => {
                    let v = &v[i as usize..i as usize + k];
                    if p.s.is_some() || v.iter().any(|&x| x != 0) {
                        p.s.get_or_insert_with(|| Box::new([0; PG]))[o..o + k].copy_from_slice(v);
                    }
                }
                None => {
                    if let Some(sh) = &mut p.s {
                        for x in &mut sh[o..o + k] {
                            *x = 0;
                        }
                    }
                }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, n: u64, b: u8, e: E) -> Result<(), Fault> {
        if n > 1 << 28 {
            return Err(Fault(dst));
        }
        if e != 0 {
            for i in 0..n {
                self.set_byte(dst + i, b, e)?;
            }
            return Ok(());
        }
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let o = a as usize % PG;
            let k = (PG - o).min((n - i) as usize);
            self.locate(a + k as u64 - 1)?;
            let p = self.page_mut(a)?;
            p.d[o..o + k].fill(b);
            if let Some(sh) = &mut p.s {
                sh[o..o + k].fill(0);
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.brk + al - 1) / al * al;
        self.brk = a + n.max(1) + 8;
        a
    }
}
