//! Hash-consed bit-vector expression DAG with an eager, semantics-preserving simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, // value in consts[a]
    Var,   // a = var index
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat, // a high, b low
    Extract, // a, b = low bit
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Lut, // a = index expr, b = table id; value = table[idx] (0 outside)
    // floating point on raw bit patterns (w = 64 or 32)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FTrunc,   // round to integral toward zero
    UToF,     // unsigned int -> f64
    SToF,
    FToU,     // saturating not modelled: fp.to_ubv
    FToS,
    Round15,  // uninterpreted: value of the 15-digit decimal text of a
    FRound,   // f64 -> f32
    FExt,     // f32 -> f64
    Dec,      // uninterpreted: value of decimal text; a = id of text
    FormSel,  // uninterpreted predicate used by contract stubs
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u8,
    pub lo: u64,
    pub hi: u64,
    pub set: Option<[u64; 4]>,
    pub kind: u8, // 0 byte 1 u64 2 f64
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub iv: Vec<(u64, u64)>, // unsigned interval (w<=64), else (0,MAX)
    pub sup: Vec<u32>,       // support set id
    pub consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    map: FxMap<Node, E>,
    pub vars: Vec<VarInfo>,
    pub var_e: Vec<E>,
    pub sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Vec<u32>, u32>,
    unionmemo: FxMap<(u32, u32), u32>,
    pub tables: Vec<(u8, Rc<Vec<u64>>)>, // (width, entries)
    tabmap: HashMap<(u8, Vec<u64>), u32>,
    lanes: FxMap<E, Rc<Vec<u64>>>,
    pub dectexts: Vec<Vec<E>>,
    decmap: HashMap<Vec<E>, u32>,
    pub tt_cache: FxMap<E, [u64; 4]>,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn mask128(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn sx128(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            iv: vec![],
            sup: vec![],
            consts: vec![],
            cmap: Default::default(),
            map: Default::default(),
            vars: vec![],
            var_e: vec![],
            sets: vec![Rc::new(vec![])],
            setmap: HashMap::new(),
            unionmemo: Default::default(),
            tables: vec![],
            tabmap: HashMap::new(),
            lanes: Default::default(),
            dectexts: vec![],
            decmap: HashMap::new(),
            tt_cache: Default::default(),
        };
        // id 0 is reserved (means "concrete" in memory overlays)
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
        c.iv.push((0, 0));
        c.sup.push(0);
        c.consts.push(0);
        c.cmap.insert(0, 0);
        c
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unionmemo.get(&k) {
            return r;
        }
        let mut v: Vec<u32> = Vec::with_capacity(self.sets[a as usize].len() + self.sets[b as usize].len());
        {
            let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
            let (mut i, mut j) = (0, 0);
            while i < x.len() || j < y.len() {
                if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                    v.push(x[i]);
                    i += 1;
                } else if i >= x.len() || y[j] < x[i] {
                    v.push(y[j]);
                    j += 1;
                } else {
                    v.push(x[i]);
                    i += 1;
                    j += 1;
                }
            }
        }
        let r = self.mkset(v);
        self.unionmemo.insert(k, r);
        r
    }
    pub fn mkset(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&r) = self.setmap.get(&v) {
            return r;
        }
        let r = self.sets.len() as u32;
        self.sets.push(Rc::new(v.clone()));
        self.setmap.insert(v, r);
        r
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as u32;
        let s = match n.op {
            Op::Const => 0,
            Op::Var => self.mkset(vec![n.a]),
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Lut | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::Round15 | Op::FRound | Op::FExt | Op::FormSel => {
                self.sup[n.a as usize]
            }
            Op::Dec => {
                let t = self.dectexts[n.a as usize].clone();
                let mut s = 0;
                for x in t {
                    let sx = self.sup[x as usize];
                    s = self.union(s, sx);
                }
                s
            }
            Op::Ite => {
                let s1 = self.union(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.union(s1, self.sup[n.c as usize])
            }
            _ => self.union(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let iv = self.interval(&n);
        self.nodes.push(n);
        self.sup.push(s);
        self.iv.push(iv);
        if matches!(n.op, Op::Add | Op::Sub) && n.w <= 64 && iv == (0, mask(n.w)) {
            if let Some((t, k)) = self.lin(e) {
                let mut hi = k;
                for (x, c) in t {
                    let (l, h) = self.iv[x as usize];
                    hi += c * (h - l);
                }
                self.iv[e as usize] = (k, hi);
            }
        }
        self.map.insert(n, e);
        e
    }
    fn interval(&self, n: &Node) -> (u64, u64) {
        let r = self.interval0(n);
        if matches!(n.op, Op::Add | Op::Sub | Op::Mul) && n.w <= 64 && r == (0, mask(n.w)) {
            // as signed numbers
            let top = 1i128 << (n.w - 1);
            let f = |e: u32| {
                let (l, h) = self.iv[e as usize];
                let (l, h) = (l as i128, h as i128);
                if h < top {
                    (l, h)
                } else if l >= top {
                    (l - 2 * top, h - 2 * top)
                } else {
                    (-top, top - 1)
                }
            };
            let ((a, b), (c, d)) = (f(n.a), f(n.b));
            let (lo, hi) = match n.op {
                Op::Add => (a + c, b + d),
                Op::Sub => (a - d, b - c),
                _ => {
                    let v = [a * c, a * d, b * c, b * d];
                    (*v.iter().min().unwrap(), *v.iter().max().unwrap())
                }
            };
            if lo >= -top && hi < 0 {
                return ((lo + 2 * top) as u64, (hi + 2 * top) as u64);
            }
            if lo >= 0 && hi < top {
                return (lo as u64, hi as u64);
            }
        }
        r
    }
    fn interval0(&self, n: &Node) -> (u64, u64) {
        let full = (0, mask(n.w));
        if n.w > 64 {
            return (0, u64::MAX);
        }
        let i = |e: u32| {
            if self.nodes[e as usize].w > 64 {
                (0, u64::MAX)
            } else {
                self.iv[e as usize]
            }
        };
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize] as u64;
                (v, v)
            }
            Op::Var => {
                let v = &self.vars[n.a as usize];
                (v.lo, v.hi)
            }
            Op::Not => {
                let (a, b) = i(n.a);
                (mask(n.w) - b, mask(n.w) - a)
            }
            Op::And => {
                let (_, b1) = i(n.a);
                let (_, b2) = i(n.b);
                (0, b1.min(b2))
            }
            Op::Or => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                let m = b1 | b2;
                let top = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                (a1.max(a2), top)
            }
            Op::Xor => {
                let (_, b1) = i(n.a);
                let (_, b2) = i(n.b);
                let m = b1 | b2;
                let top = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                (0, top)
            }
            Op::Add => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                let m = mask(n.w) as u128;
                let hi = b1 as u128 + b2 as u128;
                let lo = a1 as u128 + a2 as u128;
                if hi <= m {
                    (lo as u64, hi as u64)
                } else if lo > m {
                    ((lo - m - 1) as u64, (hi - m - 1) as u64)
                } else {
                    full
                }
            }
            Op::Sub => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                if a1 >= b2 {
                    (a1 - b2, b1 - a2)
                } else if b1 < a2 {
                    ((a1.wrapping_sub(b2)) & mask(n.w), (b1.wrapping_sub(a2)) & mask(n.w))
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                let hi = b1 as u128 * b2 as u128;
                let lo = a1 as u128 * a2 as u128;
                if hi >> n.w == lo >> n.w {
                    (lo as u64 & mask(n.w), hi as u64 & mask(n.w))
                } else {
                    full
                }
            }
            Op::UDiv => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                if a2 > 0 {
                    (a1 / b2, b1 / a2)
                } else {
                    full
                }
            }
            Op::URem => {
                let (_, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                if a2 > 0 {
                    (0, b1.min(b2 - 1))
                } else {
                    full
                }
            }
            Op::LShr => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                if b2 < 64 {
                    (a1 >> b2, b1 >> a2)
                } else {
                    (0, b1)
                }
            }
            Op::Shl => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                if a2 == b2 && a2 < 64 && ((b1 as u128) << a2) <= mask(n.w) as u128 {
                    (a1 << a2, b1 << a2)
                } else {
                    full
                }
            }
            Op::Concat => {
                let (a1, b1) = i(n.a);
                let (a2, b2) = i(n.b);
                let wl = self.nodes[n.b as usize].w;
                if wl >= 64 {
                    return full;
                }
                ((a1 << wl) | a2, (b1 << wl) | b2)
            }
            Op::Extract => {
                let (a1, b1) = i(n.a);
                if self.nodes[n.a as usize].w > 64 {
                    return full;
                }
                let lo = n.b;
                let (x, y) = (a1 >> lo, b1 >> lo);
                if y <= mask(n.w) {
                    (x, y)
                } else if x >> n.w == y >> n.w {
                    (x & mask(n.w), y & mask(n.w))
                } else {
                    full
                }
            }
            Op::ZExt => i(n.a),
            Op::SExt => {
                let (a, b) = i(n.a);
                let wa = self.nodes[n.a as usize].w;
                if wa > 0 && b < (1u64 << (wa - 1)) {
                    (a, b)
                } else {
                    full
                }
            }
            Op::Ite => {
                let (a1, b1) = i(n.b);
                let (a2, b2) = i(n.c);
                (a1.min(a2), b1.max(b2))
            }
            Op::Lut => {
                let t = &self.tables[n.b as usize].1;
                let (a, b) = i(n.a);
                let mut lo = u64::MAX;
                let mut hi = 0;
                if b >= t.len() as u64 {
                    lo = 0;
                }
                if (a as usize) < t.len() {
                    let end = (b as usize).min(t.len() - 1);
                    for k in a as usize..=end {
                        lo = lo.min(t[k]);
                        hi = hi.max(t[k]);
                    }
                }
                (lo.min(hi), hi)
            }
            _ => full,
        }
    }
    pub fn konst(&mut self, v: u128, w: u8) -> E {
        let v = v & mask128(w);
        let ci = match self.cmap.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, i);
                i
            }
        };
        self.raw(Node { op: Op::Const, w, a: ci, b: 0, c: 0 })
    }
    pub fn k(&mut self, v: u64, w: u8) -> E {
        self.konst(v as u128, w)
    }
    pub fn tru(&mut self) -> E {
        self.k(1, 1)
    }
    pub fn fals(&mut self) -> E {
        self.k(0, 1)
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn c64(&self, e: E) -> Option<u64> {
        self.cval(e).map(|x| x as u64)
    }
    pub fn var(&mut self, w: u8, lo: u64, hi: u64, set: Option<[u64; 4]>, kind: u8) -> E {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { w, lo, hi, set, kind });
        let e = self.raw(Node { op: Op::Var, w, a: v, b: 0, c: 0 });
        self.var_e.push(e);
        e
    }
    fn b(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        self.raw(Node { op, w, a, b, c: 0 })
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                return self.konst(!v, n.w);
            }
            Op::Not => return n.a,
            Op::Ite if n.w == 1 && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) => {
                let (x, y) = (self.not(n.b), self.not(n.c));
                return self.ite(n.a, x, y);
            }
            Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
            _ => {}
        }
        self.raw(Node { op: Op::Not, w: n.w, a, b: 0, c: 0 })
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    /// known-zero-bits mask approximation (w<=64): bits that are surely zero
    pub fn kz(&self, e: E) -> u64 {
        self.kzd(e, 6)
    }
    fn kzd(&self, e: E, d: u32) -> u64 {
        let n = self.nodes[e as usize];
        if n.w > 64 {
            return 0;
        }
        let m = mask(n.w);
        let hi = self.iv[e as usize].1;
        let mut z = if hi == 0 { m } else { m & !(u64::MAX >> hi.leading_zeros()) };
        if d == 0 {
            return z;
        }
        match n.op {
            Op::Const => z |= m & !(self.consts[n.a as usize] as u64),
            Op::And => z |= self.kzd(n.a, d - 1) | self.kzd(n.b, d - 1),
            Op::Or | Op::Xor => z |= self.kzd(n.a, d - 1) & self.kzd(n.b, d - 1),
            Op::ZExt => {
                let wa = self.nodes[n.a as usize].w;
                z |= self.kzd(n.a, d - 1) | (m & !mask(wa));
            }
            Op::Concat => {
                let wl = self.nodes[n.b as usize].w;
                z |= self.kzd(n.b, d - 1) | (self.kzd(n.a, d - 1) << wl);
            }
            Op::Ite => z |= self.kzd(n.b, d - 1) & self.kzd(n.c, d - 1),
            Op::Mul => {
                // trailing zeros of constants
                if let Some(k) = self.c64(n.b) {
                    if k != 0 {
                        z |= mask(k.trailing_zeros().min(63) as u8);
                    }
                }
            }
            _ => {}
        }
        z & m
    }
    /// the value as k + sum of coef * (atom - least value of atom), without any wrap-around
    fn lin(&self, e: E) -> Option<(Vec<(E, u64)>, u64)> {
        let w = self.nodes[e as usize].w;
        if w > 64 {
            return None;
        }
        let m = mask(w);
        let mut out = vec![];
        let mut k = 0u64;
        self.gather(e, 1, &mut out, &mut k);
        if out.len() > 48 {
            return None;
        }
        let mut t: Vec<(E, u64)> = vec![];
        loop {
            out.sort();
            t.clear();
            for (e, c) in out.drain(..) {
                match t.last_mut() {
                    Some(l) if l.0 == e => l.1 = l.1.wrapping_add(c),
                    _ => t.push((e, c)),
                }
            }
            // (x mod c) + c * (x div c)
            let pair = t.iter().enumerate().find_map(|(i, x)| {
                let n = self.nodes[x.0 as usize];
                let c = if n.op == Op::URem { self.c64(n.b)? } else { return None };
                let j = t.iter().position(|y| {
                    let q = self.nodes[y.0 as usize];
                    q.op == Op::UDiv && q.a == n.a && q.b == n.b && y.1 & m == x.1.wrapping_mul(c) & m
                })?;
                Some((i, j, n.a, x.1))
            });
            let Some((i, j, x, c)) = pair else { break };
            out = t.iter().enumerate().filter(|(l, _)| *l != i && *l != j).map(|(_, x)| *x).collect();
            self.gather_exact(x, c, &mut out, &mut k);
        }
        let mut max = 0u128;
        for x in t.iter_mut() {
            x.1 &= m;
            let (lo, hi) = self.iv[x.0 as usize];
            k = k.wrapping_add(x.1.wrapping_mul(lo));
            max = max.saturating_add(x.1 as u128 * (hi - lo) as u128);
        }
        t.retain(|x| x.1 != 0);
        k &= m;
        if max.saturating_add(k as u128) > m as u128 {
            return None;
        }
        Some((t, k))
    }
    fn gather_exact(&self, x: E, coef: u64, out: &mut Vec<(E, u64)>, k: &mut u64) {
        match self.lin(x) {
            Some((t, kk)) => {
                *k = k.wrapping_add(kk.wrapping_mul(coef));
                for (a, c) in t {
                    let c = c.wrapping_mul(coef);
                    *k = k.wrapping_sub(c.wrapping_mul(self.iv[a as usize].0));
                    out.push((a, c));
                }
            }
            None => out.push((x, coef)),
        }
    }
    /// the value modulo 2^64 as k + sum of coef * atom (narrower parts only where they do not wrap)
    fn gather(&self, e: E, coef: u64, out: &mut Vec<(E, u64)>, k: &mut u64) {
        let n = self.nodes[e as usize];
        if out.len() > 48 {
            out.push((e, coef));
            return;
        }
        match n.op {
            Op::Const => *k = k.wrapping_add((self.consts[n.a as usize] as u64).wrapping_mul(coef)),
            Op::Add => {
                self.gather(n.a, coef, out, k);
                self.gather(n.b, coef, out, k);
            }
            Op::Sub => {
                self.gather(n.a, coef, out, k);
                self.gather(n.b, coef.wrapping_neg(), out, k);
            }
            Op::Mul if self.c64(n.b).is_some() => self.gather(n.a, coef.wrapping_mul(self.c64(n.b).unwrap()), out, k),
            Op::Concat if self.cval(n.b) == Some(0) && self.nodes[n.b as usize].w < 63 => self.gather_exact(n.a, coef.wrapping_mul(1u64 << self.nodes[n.b as usize].w), out, k),
            Op::ZExt => self.gather_exact(n.a, coef, out, k),
            // a cut which cuts nothing off
            Op::Extract if n.b == 0 && self.nodes[n.a as usize].w <= 64 && self.iv[n.a as usize].1 <= mask(n.w) => self.gather_exact(n.a, coef, out, k),
            _ => out.push((e, coef)),
        }
    }
    fn mk_lin(&mut self, l: &[(E, u64)], k: u64, w: u8) -> E {
        let mut acc = self.k(0, w);
        for &(e, co) in l {
            let lo = self.iv[e as usize].0;
            let z = if self.w(e) > w { self.extract(e, 0, w) } else { self.zext(e, w) };
            let nl = self.k(lo.wrapping_neg() & mask(w), w);
            let z = self.bin(Op::Add, z, nl);
            let kk = self.k(co, w);
            let m = self.bin(Op::Mul, z, kk);
            acc = self.bin(Op::Add, acc, m);
        }
        let k = self.k(k, w);
        self.bin(Op::Add, acc, k)
    }
    fn divrem_linear(&mut self, a: E, c: u64, w: u8) -> Option<(E, E)> {
        if c == 0 || w > 64 {
            return None;
        }
        let (t, k) = self.lin(a)?;
        if t.len() == 1 && t[0].0 == a {
            return None;
        }
        let (q, r): (Vec<_>, Vec<_>) = t.into_iter().partition(|x| x.1 % c == 0);
        if q.is_empty() && k < c {
            return None;
        }
        let mut rmax: u128 = (k % c) as u128;
        for &(e, co) in &r {
            let (lo, hi) = self.iv[e as usize];
            rmax += (hi - lo) as u128 * co as u128;
        }
        if rmax >= c as u128 {
            return None;
        }
        let q: Vec<_> = q.into_iter().map(|(e, co)| (e, co / c)).collect();
        let qe = self.mk_lin(&q, k / c, w);
        let re = self.mk_lin(&r, k % c, w);
        Some((qe, re))
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?} {:?} {:?}", op, self.n(a), self.n(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = fold(op, w, x, y) {
                return self.konst(v, w);
            }
        }
        let m = mask128(w);
        // canonical: constant on the right for commutative
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    let na = self.n(a);
                    if na.op == Op::And {
                        if let Some(z) = self.cval(na.b) {
                            let k = self.konst(y & z, w);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if w <= 64 {
                        // mask clears only known zero bits?
                        let kz = self.kz(a) as u128;
                        if (!y & m) & !kz == 0 {
                            return a;
                        }
                        // contiguous low mask -> zext(extract)
                    }
                    let tz = y.trailing_zeros() as u8;
                    let run = (y >> tz).trailing_ones() as u8;
                    if y >> tz == mask128(run) {
                        // contiguous mask
                        let ex = self.extract(a, tz, run);
                        let mut r = ex;
                        if tz > 0 {
                            let z = self.k(0, tz);
                            r = self.concat(r, z);
                        }
                        return self.zext(r, w);
                    }
                    if na.op == Op::Concat {
                        let wl = self.w(na.b);
                        let kh = self.konst(y >> wl, w - wl);
                        let kl = self.konst(y, wl);
                        let h = self.bin(Op::And, na.a, kh);
                        let l = self.bin(Op::And, na.b, kl);
                        return self.concat(h, l);
                    }
                    if na.op == Op::ZExt {
                        let wl = self.w(na.a);
                        let kl = self.konst(y, wl);
                        let l = self.bin(Op::And, na.a, kl);
                        return self.zext(l, w);
                    }
                    if na.op == Op::Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
                        let x = self.bin(Op::And, na.b, b);
                        let z = self.bin(Op::And, na.c, b);
                        return self.ite(na.a, x, z);
                    }
                } else if w == 1 {
                    let (na, nb) = (self.n(a), self.n(b));
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.fals();
                    }
                    // absorption
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    // x==k1 & x==k2
                    if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a && self.cval(na.b).is_some() && self.cval(nb.b).is_some() {
                        return self.fals();
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                    let na = self.n(a);
                    if na.op == Op::Ite && (self.cval(na.b).is_some() && self.cval(na.c).is_some()) {
                        let x = self.bin(Op::Or, na.b, b);
                        let z = self.bin(Op::Or, na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                if w == 1 {
                    let (na, nb) = (self.n(a), self.n(b));
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.tru();
                    }
                    if self.complement(a, b) {
                        return self.tru();
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    // (p & q) | (p & !q) -> p
                    if na.op == Op::And && nb.op == Op::And {
                        for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                            for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                                if p == r && self.complement(q, s) {
                                    return p;
                                }
                            }
                        }
                    }
                } else if w <= 64 {
                    if let Some(r) = self.disjoint(a, b, w) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                    let na = self.n(a);
                    if na.op == Op::Xor {
                        if let Some(z) = self.cval(na.b) {
                            let k = self.konst(y ^ z, w);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                    if na.op == Op::Ite && (self.cval(na.b).is_some() && self.cval(na.c).is_some()) {
                        let x = self.bin(Op::Xor, na.b, b);
                        let z = self.bin(Op::Xor, na.c, b);
                        return self.ite(na.a, x, z);
                    }
                } else if w > 1 && w <= 64 {
                    if let Some(r) = self.disjoint(a, b, w) {
                        return r;
                    }
                }
            }
            Op::Add => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let na = self.n(a);
                    if na.op == Op::Add {
                        if let Some(z) = self.cval(na.b) {
                            let k = self.konst(y.wrapping_add(z), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Ite && (self.cval(na.b).is_some() && self.cval(na.c).is_some()) {
                        let x = self.bin(Op::Add, na.b, b);
                        let z = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, x, z);
                    }
                    // zext(x)+k fits: keep
                } else {
                    let na = self.n(a);
                    let nb = self.n(b);
                    if w == 1 {
                        return self.bin(Op::Xor, a, b);
                    }
                    // (x + k) + y -> (x+y)+k
                    if na.op == Op::Add {
                        if self.cval(na.b).is_some() {
                            let s = self.bin(Op::Add, na.a, b);
                            return self.bin(Op::Add, s, na.b);
                        }
                    }
                    if nb.op == Op::Add {
                        if self.cval(nb.b).is_some() {
                            let s = self.bin(Op::Add, nb.a, a);
                            return self.bin(Op::Add, s, nb.b);
                        }
                    }
                    // x + (y - x)
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    if w <= 64 {
                        if let Some(r) = self.disjoint(a, b, w) {
                            return r;
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let k = self.konst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                let na = self.n(a);
                let nb = self.n(b);
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.cval(na.b).is_some() {
                        let s = self.bin(Op::Sub, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
                if nb.op == Op::Add {
                    if let Some(z) = self.cval(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let k = self.konst(z.wrapping_neg(), w);
                        return self.bin(Op::Add, s, k);
                    }
                    if nb.a == a {
                        let z = self.konst(0, w);
                        return self.bin(Op::Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.konst(0, w);
                        return self.bin(Op::Sub, z, nb.a);
                    }
                }
                // a - (a/c)*c  == a % c
                if nb.op == Op::Mul {
                    if let Some(c) = self.cval(nb.b) {
                        let nd = self.n(nb.a);
                        if nd.op == Op::UDiv && nd.a == a && self.cval(nd.b) == Some(c) {
                            let k = self.konst(c, w);
                            return self.bin(Op::URem, a, k);
                        }
                    }
                }
                if w <= 64 {
                    // linear cancellation for decimal digit arithmetic
                    if let Some(r) = self.sub_linear(a, b, w) {
                        return r;
                    }
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    let na = self.n(a);
                    if na.op == Op::Ite && (self.cval(na.b).is_some() && self.cval(na.c).is_some()) {
                        let x = self.bin(Op::Mul, na.b, b);
                        let z = self.bin(Op::Mul, na.c, b);
                        return self.ite(na.a, x, z);
                    }
                    if na.op == Op::ZExt && w > 32 {
                        // in 32 or 64 bits where the product fits
                        let n = if self.w(na.a) <= 32 { 32 } else { 64 };
                        let h = self.iv[na.a as usize].1 as u128;
                        if n < w && self.w(na.a) <= n && h.checked_mul(y).is_some_and(|p| p <= mask(n) as u128) {
                            let x = self.zext(na.a, n);
                            let k = self.k(y as u64, n);
                            let r = self.bin(Op::Mul, x, k);
                            return self.zext(r, w);
                        }
                    }
                    if na.op == Op::Mul {
                        if let Some(z) = self.cval(na.b) {
                            let k = self.konst(y.wrapping_mul(z), w);
                            return self.bin(Op::Mul, na.a, k);
                        }
                    }
                    if y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if y != 0 && w <= 64 {
                        if self.iv[a as usize].1 < y as u64 {
                            return self.konst(0, w);
                        }
                        let na = self.n(a);
                        if na.op == Op::UDiv {
                            if let Some(z) = self.cval(na.b) {
                                if let Some(p) = y.checked_mul(z) {
                                    if p <= m {
                                        let k = self.konst(p, w);
                                        return self.bin(Op::UDiv, na.a, k);
                                    } else {
                                        return self.konst(0, w);
                                    }
                                }
                            }
                        }
                        if let Some((q, _)) = self.divrem_linear(a, y as u64, w) {
                            return q;
                        }
                        if na.op == Op::ZExt {
                            let wi = self.w(na.a);
                            if y <= mask128(wi) {
                                let k = self.konst(y, wi);
                                let q = self.bin(Op::UDiv, na.a, k);
                                return self.zext(q, w);
                            }
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y == 1 {
                        return self.konst(0, w);
                    }
                    if y != 0 && y.is_power_of_two() {
                        let k = self.konst(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                    if y != 0 && w <= 64 {
                        if self.iv[a as usize].1 < y as u64 {
                            return a;
                        }
                        if let Some((_, r)) = self.divrem_linear(a, y as u64, w) {
                            return r;
                        }
                        let na = self.n(a);
                        if na.op == Op::ZExt {
                            let wi = self.w(na.a);
                            if y <= mask128(wi) {
                                let k = self.konst(y, wi);
                                let q = self.bin(Op::URem, na.a, k);
                                return self.zext(q, w);
                            }
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let y = y as u8;
                    let lo = self.extract(a, 0, w - y);
                    let z = self.k(0, y);
                    return self.concat(lo, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let y = y as u8;
                    let hi = self.extract(a, y, w - y);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = (y.min(w as u128 - 1)) as u8;
                    let hi = self.extract(a, y, w - y);
                    return self.sext(hi, w);
                }
            }
            Op::SDiv | Op::SRem => {
                // both non-negative -> unsigned
                if w <= 64 {
                    let half = 1u64 << (w - 1);
                    if self.iv[a as usize].1 < half && self.iv[b as usize].1 < half {
                        return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                    }
                    if self.iv[a as usize].0 >= half && self.iv[b as usize].1 < half && self.iv[b as usize].0 > 0 {
                        let z = self.k(0, w);
                        let x = self.bin(Op::Sub, z, a);
                        let r = self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, x, b);
                        return self.bin(Op::Sub, z, r);
                    }
                }
            }
            _ => {}
        }
        self.b(op, w, a, b)
    }
    fn sub_linear(&mut self, a: E, b: E, w: u8) -> Option<E> {
        let (mut ta, ka) = self.lin(a)?;
        let (tb, kb) = self.lin(b)?;
        if ta.len() < 2 || tb.is_empty() || kb > ka {
            return None;
        }
        for (e, co) in &tb {
            let p = ta.iter().position(|x| x.0 == *e && x.1 >= *co)?;
            ta[p].1 -= co;
            if ta[p].1 == 0 {
                ta.swap_remove(p);
            }
        }
        ta.sort();
        Some(self.mk_lin(&ta, ka - kb, w))
    }
    fn complement(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
            return true;
        }
        match (na.op, nb.op) {
            (Op::Ult, Op::Ule) | (Op::Ule, Op::Ult) | (Op::Slt, Op::Sle) | (Op::Sle, Op::Slt) => na.a == nb.b && na.b == nb.a,
            _ => false,
        }
    }
    /// a|b (or a+b, a^b) with disjoint bit supports, as a concatenation
    fn disjoint(&mut self, a: E, b: E, w: u8) -> Option<E> {
        let (za, zb) = (self.kz(a), self.kz(b));
        let m = mask(w);
        if (za | zb) & m != m {
            return None;
        }
        // segments: find boundaries where "who owns the bits" changes
        let oa = !za & m; // bits possibly one in a
        let ob = !zb & m;
        let mut segs: Vec<(u8, u8, u8)> = vec![]; // lo,len,owner 0 none 1 a 2 b
        let mut i = 0u8;
        while i < w {
            let own = |i: u8| if oa >> i & 1 == 1 { 1 } else if ob >> i & 1 == 1 { 2 } else { 0 };
            let o = own(i);
            let s = i;
            while i < w && own(i) == o {
                i += 1;
            }
            segs.push((s, i - s, o));
        }
        if segs.len() > 9 {
            return None;
        }
        let mut acc: Option<E> = None;
        for (lo, len, o) in segs {
            let e = match o {
                0 => self.k(0, len),
                1 => self.extract(a, lo, len),
                _ => self.extract(b, lo, len),
            };
            acc = Some(match acc {
                None => e,
                Some(x) => self.concat(e, x),
            });
        }
        acc
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize] >> lo;
                return self.konst(v, w);
            }
            Op::Extract => return self.extract(n.a, n.b as u8 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wl = self.w(n.a);
                if lo >= wl {
                    return self.konst(0, w);
                }
                if lo + w <= wl {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, wl - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wl = self.w(n.a);
                if lo + w <= wl {
                    return self.extract(n.a, lo, w);
                }
                if lo < wl {
                    let l = self.extract(n.a, lo, wl - lo);
                    return self.sext(l, w);
                }
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() || w == 8 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Lut if lo == 0 && w < n.w => {
                let (_, t) = self.tables[n.b as usize].clone();
                let v: Vec<u64> = t.iter().map(|x| x & mask(w)).collect();
                return self.lut(n.a, w, v);
            }
            _ => {}
        }
        if n.w <= 64 && lo > 0 {
            let hi = self.iv[a as usize].1;
            if lo < 64 && hi >> lo == 0 {
                return self.konst(0, w);
            }
        }
        self.raw(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
            return self.konst(x << nl.w | y, w);
        }
        if self.cval(hi) == Some(0) {
            return self.zext(lo, w);
        }
        // adjacent extracts
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
                return self.extract(nl.a, nl.b as u8, w);
            }
            if nl.op == Op::Concat {
                let nlh = self.n(nl.a);
                if nlh.op == Op::Extract && nh.a == nlh.a && nh.b == nlh.b + nlh.w as u32 {
                    let x = self.extract(nh.a, nlh.b as u8, nh.w + nlh.w);
                    return self.concat(x, nl.b);
                }
            }
            // the low part of a sum, which extract() has narrowed
            if nh.b == nl.w as u32 && matches!(self.n(nh.a).op, Op::Add | Op::Sub | Op::Mul) && self.extract(nh.a, 0, nl.w) == lo {
                return self.extract(nh.a, 0, w);
            }
        }
        // hi = zext(..) -> zext(concat)
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        // right-assoc canonical form: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        self.raw(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if n.w > w {
            return self.extract(a, 0, w);
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                return self.konst(v, w);
            }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            Op::Lut if w <= 64 => {
                let (_, t) = self.tables[n.b as usize].clone();
                return self.lut(n.a, w, t.to_vec());
            }
            Op::Extract if n.b == 0 => {
                // zext(extract(x,0,k), w(x)) == x if high bits are zero
                let wx = self.w(n.a);
                if wx == w && wx <= 64 && self.iv[n.a as usize].1 <= mask(n.w) {
                    return n.a;
                }
            }
            _ => {}
        }
        self.raw(Node { op: Op::ZExt, w, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                return self.konst(sx128(v, n.w) as u128, w);
            }
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if n.w <= 64 && n.w > 1 && self.iv[a as usize].1 < 1u64 << (n.w - 1) {
            return self.zext(a, w);
        }
        self.raw(Node { op: Op::SExt, w, a, b: 0, c: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let (mut a, mut b) = (a, b);
        if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        debug_assert_eq!(na.w, nb.w);
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.k((x == y) as u64, 1);
            }
            if w <= 64 {
                let (l, h) = self.iv[a as usize];
                if (y as u64) < l || (y as u64) > h {
                    return self.fals();
                }
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if y > mask128(wi) {
                        return self.fals();
                    }
                    let k = self.konst(y, wi);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let k = self.konst(y, wi);
                    let back = self.sext(k, w);
                    if back != b {
                        return self.fals();
                    }
                    return self.eq(na.a, k);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.konst(y >> wl, w - wl);
                    let kl = self.konst(y, wl);
                    let x = self.eq(na.a, kh);
                    if self.cval(x) == Some(0) {
                        return x;
                    }
                    let z = self.eq(na.b, kl);
                    return self.and1(x, z);
                }
                Op::Ite => {
                    let (cb_, cc) = (self.cval(na.b), self.cval(na.c));
                    if cb_.is_some() || cc.is_some() {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                Op::Add => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(y.wrapping_sub(z), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cval(na.b) {
                        let k = self.konst(y ^ z, w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Not => {
                    let k = self.konst(!y, w);
                    return self.eq(na.a, k);
                }
                Op::Sub => {
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or => {
                    if y == 0 {
                        let z = self.konst(0, w);
                        let x1 = self.eq(na.a, z);
                        let x2 = self.eq(na.b, z);
                        return self.and1(x1, x2);
                    }
                }
                _ => {}
            }
        } else {
            // structural splits
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let mw = wa.max(wb);
                let x = self.zext(na.a, mw);
                let y = self.zext(nb.a, mw);
                return self.eq(x, y);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.and1(x, y);
            }
            if w <= 64 {
                let (l, h) = self.iv[a as usize];
                let (l2, h2) = self.iv[b as usize];
                if h < l2 || h2 < l {
                    return self.fals();
                }
            }
        }
        if let Some((x, y)) = self.lin_diff(a, b) {
            return self.eq(x, y);
        }
        self.raw(Node { op: Op::Eq, w: 1, a, b, c: 0 })
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    /// k + sum of coef * (atom - least value) > c, term by term, where each coefficient dominates the rest
    fn gt_terms(&mut self, t: &[(E, u64)], k: u128, c: u128) -> Option<E> {
        let mut t: Vec<(E, u64)> = t.to_vec();
        t.sort_by(|a, b| b.1.cmp(&a.1));
        if t.is_empty() || t.len() > 40 {
            return None;
        }
        let mut rest = vec![0u128; t.len() + 1];
        for i in (0..t.len()).rev() {
            let (lo, hi) = self.iv[t[i].0 as usize];
            if rest[i + 1] >= t[i].1 as u128 {
                return None;
            }
            rest[i] = rest[i + 1] + t[i].1 as u128 * (hi - lo) as u128;
        }
        if k > c {
            return Some(self.tru());
        }
        let mut c = c - k;
        // digits from the top: (atom, quotient)
        let mut q = vec![];
        let mut end = None;
        for i in 0..t.len() {
            if rest[i] <= c {
                end = Some(false);
                break;
            }
            let d = c / t[i].1 as u128;
            q.push((t[i].0, d as u64));
            c -= d * t[i].1 as u128;
        }
        let mut r = self.k(end.unwrap_or(false) as u64, 1);
        for &(e, d) in q.iter().rev() {
            let lo = self.iv[e as usize].0;
            let w = self.w(e);
            let Some(v) = lo.checked_add(d).filter(|v| *v <= mask(w)) else {
                r = self.fals();
                continue;
            };
            let kv = self.k(v, w);
            let g = self.cmp(Op::Ult, kv, e);
            let same = self.eq(e, kv);
            let x = self.and1(same, r);
            r = self.or1(g, x);
        }
        Some(r)
    }
    /// two smaller numbers which compare like a and b
    fn lin_diff(&mut self, a: E, b: E) -> Option<(E, E)> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.w > 64 || !matches!(na.op, Op::Add | Op::Mul) || !matches!(nb.op, Op::Add | Op::Mul) {
            return None;
        }
        let ((ta, ka), (tb, kb)) = (self.lin(a)?, self.lin(b)?);
        let only = |x: &Vec<(E, u64)>, y: &Vec<(E, u64)>| x.iter().filter(|t| !y.contains(t)).copied().collect::<Vec<_>>();
        let (ra, rb) = (only(&ta, &tb), only(&tb, &ta));
        if ra.len() + rb.len() == ta.len() + tb.len() {
            return None;
        }
        let low = ka.min(kb);
        let (mut ka, mut kb) = (ka - low, kb - low);
        let c = ra.first().or(rb.first()).map_or(1, |t| t.1);
        let all = |t: &Vec<(E, u64)>| t.len() <= 1 && t.iter().all(|x| x.1 == c);
        if all(&ra) && all(&rb) && ka % c == 0 && kb % c == 0 {
            // one digit each, at the same place
            (ka, kb) = (ka / c, kb / c);
            let lo = |s: &Self, t: &Vec<(E, u64)>| t.first().map_or(0, |x| s.iv[x.0 as usize].0);
            let (la, lb) = (lo(self, &ra), lo(self, &rb));
            if !ra.is_empty() && !rb.is_empty() && ka as i128 - la as i128 == kb as i128 - lb as i128 {
                let w = self.w(ra[0].0).max(self.w(rb[0].0));
                return Some((self.zext(ra[0].0, w), self.zext(rb[0].0, w)));
            }
            let one = |t: &Vec<(E, u64)>| t.iter().map(|x| (x.0, 1)).collect::<Vec<_>>();
            let (oa, ob) = (one(&ra), one(&rb));
            return Some((self.mk_lin(&oa, ka, na.w), self.mk_lin(&ob, kb, na.w)));
        }
        Some((self.mk_lin(&ra, ka, na.w), self.mk_lin(&rb, kb, na.w)))
    }
    /// a + b exceeds its width
    pub fn carry(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w > 64 {
            return None;
        }
        let (mut t, k) = self.lin(a)?;
        let (tb, kb) = self.lin(b)?;
        for (e, c) in tb {
            match t.iter_mut().find(|x| x.0 == e) {
                Some(x) => x.1 = x.1.checked_add(c)?,
                None => t.push((e, c)),
            }
        }
        self.gt_terms(&t, k as u128 + kb as u128, mask(w) as u128)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.k(matches!(op, Op::Ule | Op::Sle) as u64, 1);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = match op {
                Op::Ult => x < y,
                Op::Ule => x <= y,
                Op::Slt => sx128(x, w) < sx128(y, w),
                _ => sx128(x, w) <= sx128(y, w),
            };
            return self.k(r as u64, 1);
        }
        if w <= 64 {
            let (l1, h1) = self.iv[a as usize];
            let (l2, h2) = self.iv[b as usize];
            match op {
                Op::Ult => {
                    if h1 < l2 {
                        return self.tru();
                    }
                    if l1 >= h2 {
                        return self.fals();
                    }
                }
                Op::Ule => {
                    if h1 <= l2 {
                        return self.tru();
                    }
                    if l1 > h2 {
                        return self.fals();
                    }
                }
                Op::Slt | Op::Sle if w > 1 => {
                    let half = 1u64 << (w - 1);
                    if h1 < half && h2 < half {
                        return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                    if h1 < half && l2 >= half {
                        return self.fals();
                    }
                    if l1 >= half && h2 < half {
                        return self.tru();
                    }
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if matches!(op, Op::Ult | Op::Ule) {
            // zext stripping
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let mw = wa.max(wb);
                let x = self.zext(na.a, mw);
                let y = self.zext(nb.a, mw);
                return self.cmp(op, x, y);
            }
            if na.op == Op::ZExt {
                if let Some(y) = self.cval(b) {
                    let wi = self.w(na.a);
                    if y > mask128(wi) {
                        return self.tru();
                    }
                    let k = self.konst(y, wi);
                    return self.cmp(op, na.a, k);
                }
            }
            if nb.op == Op::ZExt {
                if let Some(x) = self.cval(a) {
                    let wi = self.w(nb.a);
                    if x > mask128(wi) {
                        return self.fals();
                    }
                    let k = self.konst(x, wi);
                    return self.cmp(op, k, nb.a);
                }
            }
            if let Some(y) = self.cval(b) {
                if op == Op::Ult && y == 1 {
                    let z = self.konst(0, w);
                    return self.eq(a, z);
                }
                if op == Op::Ule && y == 0 {
                    return self.eq(a, b);
                }
                if op == Op::Ule && y < mask128(w) {
                    let k = self.konst(y + 1, w);
                    return self.cmp(Op::Ult, a, k);
                }
            }
            if let Some(x) = self.cval(a) {
                if op == Op::Ult && x == 0 {
                    return self.ne(b, a);
                }
                if op == Op::Ule && x > 0 {
                    let k = self.konst(x - 1, w);
                    return self.cmp(Op::Ult, k, b);
                }
            }
        }
        if op == Op::Ult && w <= 64 && self.cval(a).is_none() && self.cval(b).is_none() {
            // a + q < a
            if na.op == Op::Add && (na.a == b || na.b == b) {
                if let Some(c) = self.carry(na.a, na.b) {
                    return c;
                }
            }
        }
        if matches!(op, Op::Ult | Op::Ule) {
            if let Some((x, y)) = self.lin_diff(a, b) {
                return self.cmp(op, x, y);
            }
        }
        if op == Op::Ult && w <= 64 {
            // decimal digits against a constant
            let (e, c, up) = match (self.c64(a), self.c64(b)) {
                (Some(c), None) => (b, c, true),
                (None, Some(c)) if c > 0 => (a, c - 1, false),
                _ => (a, 0, true),
            };
            if matches!(self.n(e).op, Op::Add | Op::Sub | Op::Mul) && (self.c64(a).is_some() != self.c64(b).is_some()) {
                let top = 1u64 << (w - 1);
                let (l, h) = self.iv[e as usize];
                let r = if let Some((t, k)) = self.lin(e) {
                    if t.len() > 1 {
                        self.gt_terms(&t, k as u128, c as u128).map(|r| (r, up))
                    } else {
                        None
                    }
                } else if l >= top && h >= l && w > 1 {
                    // a negative number -x:  -x > c  <=>  x < 2^w - c
                    let z = self.k(0, w);
                    let x = self.bin(Op::Sub, z, e);
                    match self.lin(x) {
                        Some((t, k)) if t.len() > 1 && c > 0 => self.gt_terms(&t, k as u128, (1u128 << w) - c as u128 - 1).map(|r| (r, !up)),
                        _ => None,
                    }
                } else {
                    None
                };
                if let Some((r, up)) = r {
                    return if up { r } else { self.not(r) };
                }
            }
        }
        if na.op == Op::Ite && self.cval(b).is_some() && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
            let x = self.cmp(op, na.b, b);
            let y = self.cmp(op, na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && self.cval(a).is_some() && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) {
            let x = self.cmp(op, a, nb.b);
            let y = self.cmp(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        if w == 1 {
            // ult(a,b) = !a & b ; ule = !a | b ; signed swapped
            let (x, y) = if matches!(op, Op::Ult | Op::Ule) { (a, b) } else { (b, a) };
            let nx = self.not(x);
            return if matches!(op, Op::Ult | Op::Slt) { self.and1(nx, y) } else { self.or1(nx, y) };
        }
        self.raw(Node { op, w: 1, a, b, c: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            let (ca, cb) = (self.cval(a), self.cval(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and1(nc, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or1(nc, a);
                }
                _ => {}
            }
        }
        // nested same-condition
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or1(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        self.raw(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }
    pub fn lut(&mut self, idx: E, w: u8, entries: Vec<u64>) -> E {
        if let Some(i) = self.c64(idx) {
            let v = entries.get(i as usize).copied().unwrap_or(0);
            return self.k(v, w);
        }
        // constant over the reachable interval?
        let (l, h) = if self.w(idx) <= 64 { self.iv[idx as usize] } else { (0, u64::MAX) };
        if (h as usize) < entries.len() {
            let f = entries[l as usize];
            if entries[l as usize..=h as usize].iter().all(|x| *x == f) {
                return self.k(f, w);
            }
            // identity
            if w <= 64 && entries[l as usize..=h as usize].iter().enumerate().all(|(i, x)| *x == l + i as u64) {
                return self.zext(idx, w);
            }
        }
        let ni = self.n(idx);
        if ni.op == Op::ZExt {
            return self.lut(ni.a, w, entries);
        }
        if (h as usize) < entries.len() && h - l < 1024 && self.w(idx) <= 64 {
            let f = entries[l as usize];
            // index plus a constant
            if w <= 64 && f < 256 && entries[l as usize..=h as usize].iter().enumerate().all(|(i, x)| *x == f + i as u64) {
                let z = if self.w(idx) > w { self.extract(idx, 0, w) } else { self.zext(idx, w) };
                let k = self.k(f.wrapping_sub(l) & mask(w), w);
                return self.bin(Op::Add, z, k);
            }
            // a part of the index which does not matter
            if let Some((t, k)) = self.lin(idx) {
                if t.len() == 2 {
                    let r: Vec<u64> = t.iter().map(|x| self.iv[x.0 as usize].1 - self.iv[x.0 as usize].0).collect();
                    for j in 0..2 {
                        let (cj, co) = (t[j].1, t[1 - j].1);
                        let at = |o: u64, j: u64| entries[(k + o * co + j * cj) as usize];
                        if r[0] < 256 && r[1] < 256 && (0..=r[1 - j]).all(|o| (0..=r[j]).all(|x| at(o, x) == at(o, 0))) {
                            let e2: Vec<u64> = (0..=r[1 - j]).map(|o| at(o, 0)).collect();
                            let wi = self.w(idx);
                            let i2 = self.mk_lin(&[(t[1 - j].0, 1)], 0, wi);
                            return self.lut(i2, w, e2);
                        }
                    }
                }
            }
        }
        let mut entries = entries;
        if (h as usize) + 1 < entries.len() {
            entries.truncate(h as usize + 1);
        }
        // shift: idx = x + k with no wrap
        if ni.op == Op::Concat && self.cval(ni.b) == Some(0) && self.w(ni.b) < 16 {
            let s = 1usize << self.w(ni.b);
            let e2: Vec<u64> = entries.iter().step_by(s).copied().collect();
            return self.lut(ni.a, w, e2);
        }
        if ni.op == Op::Lut {
            let (_, t) = self.tables[ni.b as usize].clone();
            let e2: Vec<u64> = t.iter().map(|i| entries.get(*i as usize).copied().unwrap_or(0)).collect();
            // outside of the inner table the inner value is 0
            let (_, hi) = self.iv[ni.a as usize];
            if (hi as usize) < e2.len() {
                return self.lut(ni.a, w, e2);
            }
        }
        if entries.len() <= 2 && self.w(idx) == 1 {
            let t = self.k(entries.get(1).copied().unwrap_or(0), w);
            let f = self.k(entries.first().copied().unwrap_or(0), w);
            return self.ite(idx, t, f);
        }
        let key = (w, entries);
        let t = match self.tabmap.get(&key) {
            Some(&t) => t,
            None => {
                let t = self.tables.len() as u32;
                self.tables.push((w, Rc::new(key.1.clone())));
                self.tabmap.insert(key, t);
                t
            }
        };
        self.raw(Node { op: Op::Lut, w, a: idx, b: t, c: 0 })
    }
    pub fn un(&mut self, op: Op, w: u8, a: E) -> E {
        self.raw(Node { op, w, a, b: 0, c: 0 })
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = match op {
            Op::FEq | Op::FLt | Op::FLe => 1,
            _ => self.w(a),
        };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let iw = self.w(a);
            let v = ffold(op, iw, x as u64, y as u64);
            return self.k(v, w);
        }
        self.b(op, w, a, b)
    }
    pub fn dec(&mut self, text: Vec<E>) -> E {
        let t = match self.decmap.get(&text) {
            Some(&t) => t,
            None => {
                let t = self.dectexts.len() as u32;
                self.dectexts.push(text.clone());
                self.decmap.insert(text, t);
                t
            }
        };
        self.raw(Node { op: Op::Dec, w: 64, a: t, b: 0, c: 0 })
    }

    /// evaluate under a full assignment of the variables
    pub fn eval(&self, e: E, model: &[u64], memo: &mut FxMap<E, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(self.vars[n.a as usize].lo) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let m = mask128(n.w);
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Not => !self.eval(n.a, model, memo) & m,
            Op::Extract => (self.eval(n.a, model, memo) >> n.b) & m,
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => sx128(self.eval(n.a, model, memo), self.w(n.a)) as u128 & m,
            Op::Lut => {
                let i = self.eval(n.a, model, memo);
                self.tables[n.b as usize].1.get(i as usize).copied().unwrap_or(0) as u128
            }
            Op::Concat => {
                let wl = self.w(n.b);
                (self.eval(n.a, model, memo) << wl) | self.eval(n.b, model, memo)
            }
            Op::Eq => (self.eval(n.a, model, memo) == self.eval(n.b, model, memo)) as u128,
            Op::Ult => (self.eval(n.a, model, memo) < self.eval(n.b, model, memo)) as u128,
            Op::Ule => (self.eval(n.a, model, memo) <= self.eval(n.b, model, memo)) as u128,
            Op::Slt | Op::Sle => {
                let wa = self.w(n.a);
                let x = sx128(self.eval(n.a, model, memo), wa);
                let y = sx128(self.eval(n.b, model, memo), wa);
                (if n.op == Op::Slt { x < y } else { x <= y }) as u128
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe => {
                let x = self.eval(n.a, model, memo) as u64;
                let y = self.eval(n.b, model, memo) as u64;
                ffold(n.op, self.w(n.a), x, y) as u128
            }
            Op::FTrunc => f64::from_bits(self.eval(n.a, model, memo) as u64).trunc().to_bits() as u128,
            Op::UToF => (self.eval(n.a, model, memo) as f64).to_bits() as u128,
            Op::SToF => (sx128(self.eval(n.a, model, memo), self.w(n.a)) as f64).to_bits() as u128,
            Op::FToU => (f64::from_bits(self.eval(n.a, model, memo) as u64) as u64) as u128 & m,
            Op::FToS => (f64::from_bits(self.eval(n.a, model, memo) as u64) as i64) as u128 & m,
            Op::FRound => (f64::from_bits(self.eval(n.a, model, memo) as u64) as f32).to_bits() as u128,
            Op::FExt => (f32::from_bits(self.eval(n.a, model, memo) as u32) as f64).to_bits() as u128,
            Op::Round15 => {
                let d = f64::from_bits(self.eval(n.a, model, memo) as u64);
                format!("{:.14E}", d).parse::<f64>().unwrap_or(d).to_bits() as u128
            }
            Op::Dec => {
                let t = &self.dectexts[n.a as usize];
                let bytes: Vec<u8> = t.iter().map(|x| self.eval(*x, model, memo) as u8).collect();
                std::str::from_utf8(&bytes).ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(f64::NAN).to_bits() as u128
            }
            Op::FormSel => {
                // contract predicate: does the shortest decimal text of a have an exponent-free "interesting" form
                let d = f64::from_bits(self.eval(n.a, model, memo) as u64);
                formsel(d, n.b) as u128
            }
            _ => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                fold(n.op, n.w, x, y).unwrap_or(0)
            }
        };
        memo.insert(e, v);
        v
    }
    /// values of a single-variable expression (var width <= 8) for all 256 inputs
    pub fn lane(&mut self, e: E) -> Rc<Vec<u64>> {
        if let Some(l) = self.lanes.get(&e) {
            return l.clone();
        }
        let n = self.n(e);
        let mut out = vec![0u64; 256];
        let get = |s: &mut Self, x: E| -> Option<Rc<Vec<u64>>> {
            if s.cval(x).is_some() {
                None
            } else {
                Some(s.lane(x))
            }
        };
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize] as u64;
                out.iter_mut().for_each(|x| *x = v);
            }
            Op::Var => out.iter_mut().enumerate().for_each(|(i, x)| *x = i as u64),
            _ => {
                let wide = n.w > 64 || self.w(n.a) > 64 && !matches!(n.op, Op::Dec);
                if wide || matches!(n.op, Op::Dec | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FRound | Op::FExt | Op::Round15 | Op::FormSel) {
                    let v = self.sets[self.sup[e as usize] as usize][0] as usize;
                    let mut model = vec![0u64; v + 1];
                    for i in 0..256u64 {
                        model[v] = i;
                        let mut memo = Default::default();
                        out[i as usize] = self.eval(e, &model, &mut memo) as u64;
                    }
                } else {
                    let la = get(self, n.a);
                    let ka = self.cval(n.a).unwrap_or(0) as u64;
                    let two = !matches!(n.op, Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Lut);
                    let (lb, kb) = if two { (get(self, n.b), self.cval(n.b).unwrap_or(0) as u64) } else { (None, 0) };
                    let (lc, kc) = if n.op == Op::Ite { (get(self, n.c), self.cval(n.c).unwrap_or(0) as u64) } else { (None, 0) };
                    let wa = self.w(n.a);
                    let wb = if two { self.w(n.b) } else { 0 };
                    let m = mask(n.w);
                    let tab = if n.op == Op::Lut { Some(self.tables[n.b as usize].1.clone()) } else { None };
                    for i in 0..256 {
                        let x = la.as_ref().map_or(ka, |l| l[i]);
                        let y = lb.as_ref().map_or(kb, |l| l[i]);
                        let z = lc.as_ref().map_or(kc, |l| l[i]);
                        out[i] = match n.op {
                            Op::Not => !x & m,
                            Op::Extract => (x >> n.b) & m,
                            Op::ZExt => x,
                            Op::SExt => sx(x, wa) as u64 & m,
                            Op::Lut => tab.as_ref().unwrap().get(x as usize).copied().unwrap_or(0),
                            Op::Concat => (x << wb) | y,
                            Op::Eq => (x == y) as u64,
                            Op::Ult => (x < y) as u64,
                            Op::Ule => (x <= y) as u64,
                            Op::Slt => (sx(x, wa) < sx(y, wa)) as u64,
                            Op::Sle => (sx(x, wa) <= sx(y, wa)) as u64,
                            Op::Ite => {
                                if x == 1 {
                                    y
                                } else {
                                    z
                                }
                            }
                            _ => fold(n.op, n.w, x as u128, y as u128).unwrap_or(0) as u64,
                        };
                    }
                }
            }
        }
        let r = Rc::new(out);
        if self.lanes.len() > 60000 {
            self.lanes.clear();
        }
        self.lanes.insert(e, r.clone());
        r
    }
    /// truth table of a 1-bit single-variable condition
    pub fn tt(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tt_cache.get(&e) {
            return *t;
        }
        let l = self.lane(e);
        let mut t = [0u64; 4];
        for i in 0..256 {
            if l[i] & 1 == 1 {
                t[i >> 6] |= 1 << (i & 63);
            }
        }
        self.tt_cache.insert(e, t);
        t
    }
    /// the only variable of e, if it has exactly one and that is at most 8 bits wide
    /// readable form, for debugging
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.nodes[e as usize];
        let f = |x: u32| self.show(x, d.saturating_sub(1));
        if d == 0 && !matches!(n.op, Op::Const | Op::Var) {
            return format!("e{}", e);
        }
        match n.op {
            Op::Const => format!("{}", self.consts[n.a as usize]),
            Op::Var => format!("v{}", n.a),
            Op::Not | Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, f(n.a)),
            Op::Extract => format!("{}[{}+{}]", f(n.a), n.b, n.w),
            Op::Ite => format!("({} ? {} : {})", f(n.a), f(n.b), f(n.c)),
            Op::Lut => format!("T{}[{}]", n.b, f(n.a)),
            Op::Dec | Op::FormSel | Op::FTrunc | Op::Round15 | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FRound | Op::FExt => format!("({:?} {})", n.op, n.a),
            _ => format!("({:?}{} {} {}){{{}..{}}}", n.op, n.w, f(n.a), f(n.b), self.iv[e as usize].0, self.iv[e as usize].1),
        }
    }
    pub fn single(&self, e: E) -> Option<u32> {
        let s = &self.sets[self.sup[e as usize] as usize];
        if s.len() == 1 && self.vars[s[0] as usize].w <= 8 {
            Some(s[0])
        } else {
            None
        }
    }
    pub fn support(&self, e: E) -> Rc<Vec<u32>> {
        self.sets[self.sup[e as usize] as usize].clone()
    }
}

pub fn formsel(d: f64, which: u32) -> bool {
    let f = d.fract();
    match which {
        0 => f.to_string().chars().filter(|c| c.is_ascii_digit() && *c != '0').count() > 10,
        _ => f == 0.0,
    }
}

pub fn ffold(op: Op, w: u8, x: u64, y: u64) -> u64 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        match op {
            Op::FAdd => (a + b).to_bits(),
            Op::FSub => (a - b).to_bits(),
            Op::FMul => (a * b).to_bits(),
            Op::FDiv => (a / b).to_bits(),
            Op::FEq => (a == b) as u64,
            Op::FLt => (a < b) as u64,
            Op::FLe => (a <= b) as u64,
            _ => unreachable!(),
        }
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            Op::FAdd => (a + b).to_bits() as u64,
            Op::FSub => (a - b).to_bits() as u64,
            Op::FMul => (a * b).to_bits() as u64,
            Op::FDiv => (a / b).to_bits() as u64,
            Op::FEq => (a == b) as u64,
            Op::FLt => (a < b) as u64,
            Op::FLe => (a <= b) as u64,
            _ => unreachable!(),
        }
    }
}

pub fn fold(op: Op, w: u8, x: u128, y: u128) -> Option<u128> {
    let m = mask128(w);
    Some(
        match op {
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Op::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Op::SDiv => {
                if y == 0 {
                    return None;
                }
                sx128(x, w).wrapping_div(sx128(y, w)) as u128
            }
            Op::SRem => {
                if y == 0 {
                    return None;
                }
                sx128(x, w).wrapping_rem(sx128(y, w)) as u128
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sx128(x, w);
                (s >> y.min(w as u128 - 1)) as u128
            }
            _ => return None,
        } & m,
    )
}
