//! Copy-on-write byte memory; every byte is a concrete value or an 8-bit expression.
use std::rc::Rc;

pub const PG: usize = 256;
const CH: usize = 64;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PG],
    pub s: Option<Box<[u32; PG]>>,
}

#[derive(Clone)]
pub struct Chunk(pub [Option<Rc<Page>>; CH]);

#[derive(Clone)]
pub struct Region {
    pub base: u64,
    pub limit: u64,
    pub chunks: Vec<Option<Rc<Chunk>>>,
}

#[derive(Clone)]
pub struct Mem {
    pub r: [Region; 3],
}

pub const STACK_BASE: u64 = 0x0001_0000_0000;
pub const STACK_LIM: u64 = 0x0001_1000_0000;
pub const HEAP_BASE: u64 = 0x0002_0000_0000;
pub const HEAP_LIM: u64 = 0x0002_4000_0000;

static ZERO: Page = Page { d: [0; PG], s: None };

impl Mem {
    pub fn new(gl_base: u64, gl_lim: u64) -> Mem {
        let r = |base, limit| Region { base, limit, chunks: vec![] };
        Mem { r: [r(gl_base, gl_lim), r(STACK_BASE, STACK_LIM), r(HEAP_BASE, HEAP_LIM)] }
    }
    #[inline]
    fn region(&self, a: u64) -> Option<usize> {
        for i in [1usize, 2, 0] {
            if a >= self.r[i].base && a < self.r[i].limit {
                return Some(i);
            }
        }
        None
    }
    pub fn valid(&self, a: u64, n: u64) -> bool {
        match self.region(a) {
            Some(i) => a.checked_add(n).map_or(false, |e| e <= self.r[i].limit),
            None => n == 0,
        }
    }
    #[inline]
    pub fn page(&self, a: u64) -> Option<(&Page, usize)> {
        let ri = self.region(a)?;
        let off = (a - self.r[ri].base) as usize;
        let (pi, po) = (off / PG, off % PG);
        let (ci, pj) = (pi / CH, pi % CH);
        match self.r[ri].chunks.get(ci) {
            Some(Some(c)) => match &c.0[pj] {
                Some(p) => Some((p, po)),
                None => Some((&ZERO, po)),
            },
            _ => Some((&ZERO, po)),
        }
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Option<(&mut Page, usize)> {
        let ri = self.region(a)?;
        let r = &mut self.r[ri];
        let off = (a - r.base) as usize;
        let (pi, po) = (off / PG, off % PG);
        let (ci, pj) = (pi / CH, pi % CH);
        if r.chunks.len() <= ci {
            r.chunks.resize(ci + 1, None);
        }
        let c = r.chunks[ci].get_or_insert_with(|| Rc::new(Chunk([const { None }; CH])));
        let c = Rc::make_mut(c);
        let p = c.0[pj].get_or_insert_with(|| Rc::new(ZERO.clone()));
        Some((Rc::make_mut(p), po))
    }
    /// concrete little-endian read of up to 8 bytes; None if invalid or symbolic
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Option<u64> {
        let (p, o) = self.page(a)?;
        if o + n <= PG && p.s.is_none() {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&p.d[o..o + n]);
            return Some(u64::from_le_bytes(b));
        }
        let mut v = 0u64;
        for i in 0..n {
            let (c, s) = self.byte(a + i as u64)?;
            if s != 0 {
                return None;
            }
            v |= (c as u64) << (8 * i);
        }
        Some(v)
    }
    /// (concrete byte, expression or 0)
    #[inline]
    pub fn byte(&self, a: u64) -> Option<(u8, u32)> {
        let (p, o) = self.page(a)?;
        Some((p.d[o], p.s.as_ref().map_or(0, |s| s[o])))
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, v: u64, n: usize) -> bool {
        let b = v.to_le_bytes();
        if let Some((p, o)) = self.page_mut(a) {
            if o + n <= PG {
                p.d[o..o + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut p.s {
                    for i in o..o + n {
                        s[i] = 0;
                    }
                }
                return true;
            }
        } else {
            return false;
        }
        for i in 0..n {
            if !self.write_b(a + i as u64, b[i], 0) {
                return false;
            }
        }
        true
    }
    #[inline]
    pub fn write_b(&mut self, a: u64, c: u8, s: u32) -> bool {
        match self.page_mut(a) {
            Some((p, o)) => {
                p.d[o] = c;
                if s != 0 {
                    p.s.get_or_insert_with(|| Box::new([0; PG]))[o] = s;
                } else if let Some(x) = &mut p.s {
                    x[o] = 0;
                }
                true
            }
            None => false,
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> bool {
        if n == 0 || dst == src {
            return true;
        }
        if !self.valid(dst, n) || !self.valid(src, n) {
            return false;
        }
        // gather then scatter (handles overlap)
        let mut d = Vec::with_capacity(n as usize);
        let mut s: Vec<u32> = vec![];
        let mut i = 0u64;
        while i < n {
            let (p, o) = self.page(src + i).unwrap();
            let k = (PG - o).min((n - i) as usize);
            d.extend_from_slice(&p.d[o..o + k]);
            if let Some(ps) = &p.s {
                if s.is_empty() {
                    s.resize(i as usize, 0);
                }
                s.resize(i as usize, 0);
                s.extend_from_slice(&ps[o..o + k]);
            }
            i += k as u64;
        }
        if !s.is_empty() {
            s.resize(n as usize, 0);
        }
        let mut i = 0u64;
        while i < n {
            let (p, o) = self.page_mut(dst + i).unwrap();
            let k = (PG - o).min((n - i) as usize);
            let r = i as usize..i as usize + k;
            p.d[o..o + k].copy_from_slice(&d[r.clone()]);
            if !s.is_empty() && s[r.clone()].iter().any(|x| *x != 0) {
                p.s.get_or_insert_with(|| Box::new([0; PG]))[o..o + k].copy_from_slice(&s[r]);
            } else if let Some(x) = &mut p.s {
                for y in &mut x[o..o + k] {
                    *y = 0;
                }
            }
            i += k as u64;
        }
        true
    }
    pub fn fill(&mut self, dst: u64, c: u8, e: u32, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        if !self.valid(dst, n) {
            return false;
        }
        for i in 0..n {
            self.write_b(dst + i, c, e);
        }
        true
    }
}
