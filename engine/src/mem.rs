//! Copy-on-write byte memory with a symbolic overlay.
use crate::expr::E;
use crate::ir::{Module, HEAP_BASE, RO_BASE, RW_BASE, STACK_BASE};
use std::rc::Rc;

pub const PS: usize = 512;
const PSH: u32 = 9;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PS],
    pub sym: Option<Box<[E; PS]>>,
}
fn zero_page() -> Page {
    Page { data: [0; PS], sym: None }
}

pub const NREG: usize = 3; // RW, HEAP, STACK
const BASES: [u64; NREG] = [RW_BASE, HEAP_BASE, STACK_BASE];

#[derive(Clone)]
pub struct Mem {
    pub regs: [Vec<Option<Rc<Page>>>; NREG],
    pub ro: Rc<Vec<u8>>,
    pub heap_top: u64,
    pub free: Rc<Vec<Vec<u64>>>, // per size class
    pub sp: u64,
}

#[derive(Debug)]
pub struct MemErr(pub u64);

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let mut mem = Mem {
            regs: [vec![], vec![], vec![]],
            ro: Rc::new(m.ro.clone()),
            heap_top: HEAP_BASE + 64,
            free: Rc::new(vec![vec![]; 64]),
            sp: STACK_BASE + 4096,
        };
        let n = m.rw.len();
        for i in 0..(n + PS - 1) / PS {
            let mut p = zero_page();
            let e = ((i + 1) * PS).min(n);
            p.data[..e - i * PS].copy_from_slice(&m.rw[i * PS..e]);
            mem.regs[0].push(Some(Rc::new(p)));
        }
        mem
    }
    #[inline]
    fn region(&self, a: u64) -> Option<(usize, usize)> {
        let r = if a >= STACK_BASE {
            2
        } else if a >= HEAP_BASE {
            1
        } else if a >= RW_BASE {
            0
        } else {
            return None;
        };
        Some((r, (a - BASES[r]) as usize))
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let (r, o) = self.region(a)?;
        self.regs[r].get(o >> PSH)?.as_ref().map(|p| &**p)
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let (r, o) = self.region(a)?;
        let i = o >> PSH;
        if i > (1 << 22) {
            return None;
        }
        let v = &mut self.regs[r];
        if i >= v.len() {
            v.resize(i + 1, None);
        }
        let s = &mut v[i];
        if s.is_none() {
            *s = Some(Rc::new(zero_page()));
        }
        Some(Rc::make_mut(s.as_mut().unwrap()))
    }
    /// concrete read of n<=16 bytes; Err(true) = symbolic byte present
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Result<u128, bool> {
        if a >= RO_BASE && a < RW_BASE {
            let o = (a - RO_BASE) as usize;
            if o + n > self.ro.len() {
                return Err(false);
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.ro[o..o + n]);
            return Ok(u128::from_le_bytes(b));
        }
        let o = (a as usize) & (PS - 1);
        if o + n <= PS {
            match self.page(a) {
                Some(p) => {
                    if let Some(s) = &p.sym {
                        if s[o..o + n].iter().any(|e| *e != 0) {
                            return Err(true);
                        }
                    }
                    if n == 8 {
                        let mut b = [0u8; 8];
                        b.copy_from_slice(&p.data[o..o + 8]);
                        return Ok(u64::from_le_bytes(b) as u128);
                    }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&p.data[o..o + n]);
                    Ok(u128::from_le_bytes(b))
                }
                None => Err(false),
            }
        } else {
            let k = PS - o;
            let l = self.read(a, k)?;
            let h = self.read(a + k as u64, n - k)?;
            Ok(l | h << (8 * k))
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Option<(u8, E)> {
        if a >= RO_BASE && a < RW_BASE {
            return self.ro.get((a - RO_BASE) as usize).map(|b| (*b, 0));
        }
        let o = (a as usize) & (PS - 1);
        let p = self.page(a)?;
        Some((p.data[o], p.sym.as_ref().map_or(0, |s| s[o])))
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: usize, v: u128) -> Result<(), MemErr> {
        let o = (a as usize) & (PS - 1);
        if o + n <= PS {
            let p = self.page_mut(a).ok_or(MemErr(a))?;
            if n == 8 {
                p.data[o..o + 8].copy_from_slice(&(v as u64).to_le_bytes());
            } else {
                p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            if let Some(s) = &mut p.sym {
                s[o..o + n].fill(0);
            }
            Ok(())
        } else {
            let k = PS - o;
            self.write(a, k, v)?;
            self.write(a + k as u64, n - k, v >> (8 * k))
        }
    }
    pub fn write_sym(&mut self, a: u64, e: E) -> Result<(), MemErr> {
        let o = (a as usize) & (PS - 1);
        let p = self.page_mut(a).ok_or(MemErr(a))?;
        if p.sym.is_none() {
            p.sym = Some(Box::new([0; PS]));
        }
        p.data[o] = 0;
        p.sym.as_mut().unwrap()[o] = e;
        Ok(())
    }
    pub fn write_byte(&mut self, a: u64, b: u8, e: E) -> Result<(), MemErr> {
        if e != 0 {
            self.write_sym(a, e)
        } else {
            self.write(a, 1, b as u128)
        }
    }
    /// memmove semantics
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 || d == s {
            return Ok(());
        }
        if n > 1 << 24 {
            return Err(MemErr(s));
        }
        let mut buf = vec![0u8; n as usize];
        let mut syms: Vec<(usize, E)> = vec![];
        self.read_bytes(s, &mut buf, &mut syms)?;
        self.write_bytes(d, &buf)?;
        for (i, e) in syms {
            self.write_sym(d + i as u64, e)?;
        }
        Ok(())
    }
    pub fn read_bytes(&self, s: u64, buf: &mut [u8], syms: &mut Vec<(usize, E)>) -> Result<(), MemErr> {
        let n = buf.len();
        let mut i = 0usize;
        while i < n {
            let a = s + i as u64;
            if a >= RO_BASE && a < RW_BASE {
                let o = (a - RO_BASE) as usize;
                if o + (n - i) > self.ro.len() {
                    return Err(MemErr(a));
                }
                buf[i..].copy_from_slice(&self.ro[o..o + n - i]);
                return Ok(());
            }
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min(n - i);
            let p = self.page(a).ok_or(MemErr(a))?;
            buf[i..i + k].copy_from_slice(&p.data[o..o + k]);
            if let Some(sy) = &p.sym {
                for j in 0..k {
                    if sy[o + j] != 0 {
                        syms.push((i + j, sy[o + j]));
                    }
                }
            }
            i += k;
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, d: u64, buf: &[u8]) -> Result<(), MemErr> {
        let n = buf.len();
        let mut i = 0;
        while i < n {
            let a = d + i as u64;
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min(n - i);
            let p = self.page_mut(a).ok_or(MemErr(a))?;
            p.data[o..o + k].copy_from_slice(&buf[i..i + k]);
            if let Some(s) = &mut p.sym {
                s[o..o + k].fill(0);
            }
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, b: u8, n: u64) -> Result<(), MemErr> {
        if n > 1 << 24 {
            return Err(MemErr(d));
        }
        let mut i = 0u64;
        while i < n {
            let a = d + i;
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min((n - i) as usize);
            let p = self.page_mut(a).ok_or(MemErr(a))?;
            p.data[o..o + k].fill(b);
            if let Some(s) = &mut p.sym {
                s[o..o + k].fill(0);
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let p = (self.sp + a - 1) / a * a;
        self.sp = p + size.max(1);
        // make sure that the pages exist
        let mut x = p & !(PS as u64 - 1);
        while x < self.sp {
            let (r, o) = self.region(x).unwrap();
            let i = o >> PSH;
            if i >= self.regs[r].len() {
                self.regs[r].resize(i + 1, None);
            }
            if self.regs[r][i].is_none() {
                self.regs[r][i] = Some(Rc::new(zero_page()));
            }
            x += PS as u64;
        }
        p
    }
    fn class(sz: u64) -> (usize, u64) {
        // classes: multiples of 16 up to 256, then powers of two
        if sz <= 256 {
            let c = ((sz.max(1) + 15) / 16) as usize;
            (c, c as u64 * 16)
        } else {
            let p = sz.next_power_of_two();
            (17 + p.trailing_zeros() as usize - 9, p)
        }
    }
    pub fn malloc(&mut self, sz: u64, align: u64, zero: bool) -> u64 {
        let (c, csz) = Self::class(sz);
        let al = align.max(16);
        if al == 16 {
            if !self.free[c].is_empty() {
                let p = Rc::make_mut(&mut self.free)[c].pop().unwrap();
                let _ = self.write(p - 16, 8, sz as u128);
                if zero {
                    let _ = self.fill(p, 0, csz);
                }
                return p;
            }
        }
        let p = (self.heap_top + 16 + al - 1) / al * al;
        self.heap_top = p + csz;
        let _ = self.write(p - 16, 8, sz as u128);
        let _ = self.write(p - 8, 8, 0xA110C);
        // touch pages
        let mut x = p;
        while x < p + csz {
            let _ = self.page_mut(x);
            x += PS as u64;
        }
        if csz > 0 {
            let _ = self.page_mut(p + csz - 1);
        }
        p
    }
    pub fn size_of(&self, p: u64) -> Result<u64, MemErr> {
        let m = self.read(p - 8, 8).map_err(|_| MemErr(p))?;
        if m != 0xA110C {
            return Err(MemErr(p));
        }
        Ok(self.read(p - 16, 8).map_err(|_| MemErr(p))? as u64)
    }
    pub fn free_(&mut self, p: u64, reuse: bool) -> Result<(), MemErr> {
        if p == 0 {
            return Ok(());
        }
        let sz = self.size_of(p)?;
        let (c, _) = Self::class(sz);
        if reuse {
            Rc::make_mut(&mut self.free)[c].push(p);
        } else {
            self.write(p - 8, 8, 0xDEAD)?;
        }
        Ok(())
    }
}
