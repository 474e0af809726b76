//! Contract of the standard library's f64 <-> text conversions.
//!
//! * a decimal text of at most 15 significant digits is a value of its own (`Op::Dec`): parsing is injective and
//!   monotone on such texts, `Display` prints the canonical form of the text, `{:.NE}` its digits;
//! * any other value is opaque: `Display` gives a text of fresh digits which parses back to that very value
//!   (the shortest-round-trip guarantee of the standard library), `{:.14E}` a text which parses to `Round15(value)`.
use crate::exec::*;
use crate::expr::*;
use crate::ir::CallInfo;
use std::rc::Rc;

type R<T> = Result<T, HookRes>;

#[derive(Clone)]
pub struct Digits {
    pub neg: bool,
    pub int: Vec<E>,
    pub frac: Vec<E>,
}

impl Exec {
    fn ch(&mut self, c: u8) -> E {
        self.x.k(c as u64, 8)
    }
    /// the canonical digits of a decimal or of a short constant
    pub fn digits_of(&mut self, e: E) -> Option<Digits> {
        let n = self.x.n(e);
        let text: Vec<E> = match n.op {
            Op::Dec => self.x.dectexts[n.a as usize].clone(),
            Op::Const => {
                let d = f64::from_bits(self.x.consts[n.a as usize] as u64);
                if !d.is_finite() {
                    return None;
                }
                let s = d.to_string();
                s.bytes().map(|b| self.x.k(b as u64, 8)).collect()
            }
            _ => return None,
        };
        let mut t = &text[..];
        let neg = self.x.c64(t[0]) == Some(b'-' as u64);
        if neg {
            t = &t[1..];
        }
        let dot = t.iter().position(|e| self.x.c64(*e) == Some(b'.' as u64));
        let (i, f) = match dot {
            Some(p) => (t[..p].to_vec(), t[p + 1..].to_vec()),
            None => (t.to_vec(), vec![]),
        };
        let d = Digits { neg, int: i, frac: f };
        if self.sig(&d) > 15 {
            return None;
        }
        Some(d)
    }
    /// upper bound of the number of significant digits
    fn sig(&self, d: &Digits) -> usize {
        let all: Vec<E> = d.int.iter().chain(d.frac.iter()).copied().collect();
        let z = |e: &E| self.x.c64(*e) == Some(b'0' as u64);
        let a = all.iter().take_while(|e| z(e)).count();
        let b = all.iter().rev().take_while(|e| z(e)).count();
        all.len().saturating_sub(a + b)
    }
    fn mk_dec(&mut self, d: &Digits) -> E {
        let mut t = vec![];
        if d.neg {
            t.push(self.ch(b'-'));
        }
        t.extend(&d.int);
        if !d.frac.is_empty() {
            t.push(self.ch(b'.'));
            t.extend(&d.frac);
        }
        if t.iter().all(|e| self.x.cval(*e).is_some()) {
            let b: Vec<u8> = t.iter().map(|e| self.x.c64(*e).unwrap() as u8).collect();
            let v: f64 = std::str::from_utf8(&b).unwrap().parse().unwrap();
            return self.x.k(v.to_bits(), 64);
        }
        self.x.dec(t)
    }
    /// k such that the decimal is a multiple of 2^-k below 10^9 (then sums and halves are exact)
    fn dyadic(&mut self, e: E, d: &Digits) -> Option<u32> {
        if let Some(k) = self.loose.get(&e) {
            return Some(*k);
        }
        if d.int.len() > 9 || d.frac.len() > 18 {
            return None;
        }
        if let Some(k) = self.dyadic_frac.get(&d.frac) {
            return Some(*k);
        }
        let f: Option<String> = d.frac.iter().map(|c| self.x.c64(*c).map(|c| c as u8 as char)).collect();
        let mut n: u128 = f?.parse().ok().or(if d.frac.is_empty() { Some(0) } else { None })?;
        let m = 10u128.pow(d.frac.len() as u32);
        let mut k = 0;
        while n % m != 0 {
            n *= 2;
            k += 1;
            if k > 18 {
                return None;
            }
        }
        Some(k)
    }
    fn loose(&mut self, d: &Digits, k: u32) -> E {
        let r = self.mk_dec(d);
        if self.x.n(r).op == Op::Dec {
            self.loose.insert(r, k);
        }
        r
    }
    /// digits without superfluous zeros
    fn tight(&mut self, st: &mut State, e: E) -> R<Option<Digits>> {
        let Some(mut d) = self.digits_of(e) else { return Ok(None) };
        if self.loose.contains_key(&e) {
            let z = self.ch(b'0');
            while d.int.len() > 1 {
                let c = self.x.eq(d.int[0], z);
                if !self.cond(st, c)? {
                    break;
                }
                d.int.remove(0);
            }
            while let Some(&f) = d.frac.last() {
                let c = self.x.eq(f, z);
                if !self.cond(st, c)? {
                    break;
                }
                d.frac.pop();
            }
            if d.int.len() <= 9 {
                let k = self.loose[&e];
                self.dyadic_frac.insert(d.frac.clone(), k);
            }
        }
        Ok(Some(d))
    }
    /// sums, differences, products by 0, 1/2, -1 of decimals, where they are exact
    pub fn dec_arith(&mut self, st: &mut State, op: u8, a: &Val, b: &Val) -> R<Option<Val>> {
        let g = |s: &mut Self, v: &Val| -> Option<E> {
            match v {
                Val::I(i) => Some(s.x.k(*i, 64)),
                Val::S(e) if s.x.n(*e).op == Op::Dec => Some(*e),
                _ => None,
            }
        };
        let (Some(ea), Some(eb)) = (g(self, a), g(self, b)) else { return Ok(None) };
        let zero = |s: &Self, e: E| matches!(s.x.c64(e), Some(v) if f64::from_bits(v) == 0.0);
        let (za, zb) = (zero(self, ea), zero(self, eb));
        // a decimal is never a negative zero
        if (op == 0 || op == 1) && zb {
            return Ok(Some(a.clone()));
        }
        if op == 0 && za {
            return Ok(Some(b.clone()));
        }
        let (Some(da), Some(db)) = (self.digits_of(ea), self.digits_of(eb)) else { return Ok(None) };
        if op == 2 && (za || zb) {
            let neg = da.neg != db.neg;
            return Ok(Some(Val::I(if neg { (-0.0f64).to_bits() } else { 0 })));
        }
        let (Some(ka), Some(kb)) = (self.dyadic(ea, &da), self.dyadic(eb, &db)) else { return Ok(None) };
        let z = self.ch(b'0');
        match op {
            0 | 1 => {
                let k = ka.max(kb);
                let nb = if op == 1 { !db.neg } else { db.neg };
                if op == 1 && self.ftrunc(ea) == eb {
                    if da.neg {
                        let mut nil = self.x.tru();
                        for c in &da.frac {
                            let q = self.x.eq(*c, z);
                            nil = self.x.and1(nil, q);
                        }
                        if self.cond(st, nil)? {
                            return Ok(Some(Val::I(0)));
                        }
                    }
                    let d = Digits { neg: da.neg, int: vec![z], frac: da.frac.clone() };
                    let r = self.loose(&d, k);
                    return Ok(Some(self.v(r)));
                }
                let n = da.int.len().max(db.int.len());
                let f = da.frac.len().max(db.frac.len());
                let al = |d: &Digits| -> Vec<E> {
                    let mut v = vec![z; n - d.int.len()];
                    v.extend(&d.int);
                    v.extend(&d.frac);
                    v.extend(vec![z; f - d.frac.len()]);
                    v
                };
                let (mut x, mut y) = (al(&da), al(&db));
                let mut neg = da.neg;
                let minus = da.neg != nb;
                if minus {
                    // order the magnitudes
                    let (pa, pb) = (Digits { neg: false, ..da.clone() }, Digits { neg: false, ..db.clone() });
                    let (ma, mb) = (self.mk_dec(&pa), self.mk_dec(&pb));
                    let (va, vb) = (self.v(ma), self.v(mb));
                    let Some((eq, lt)) = self.dec_cmp(&va, &vb) else { return Ok(None) };
                    if self.cond(st, eq)? {
                        return Ok(Some(Val::I(0)));
                    }
                    if self.cond(st, lt)? {
                        std::mem::swap(&mut x, &mut y);
                        neg = nb;
                    }
                }
                let mut out = vec![];
                let one = self.x.k(1, 8);
                let nil = self.x.k(0, 8);
                let ten = self.x.k(10, 8);
                let mut carry = nil;
                for i in (0..n + f).rev() {
                    let p = self.x.bin(Op::Sub, x[i], z);
                    let q = self.x.bin(Op::Sub, y[i], z);
                    let q = self.x.bin(Op::Add, q, carry);
                    let (r, c) = if minus {
                        let c = self.x.cmp(Op::Ult, p, q);
                        let r = self.x.bin(Op::Sub, p, q);
                        let r2 = self.x.bin(Op::Add, r, ten);
                        (self.x.ite(c, r2, r), c)
                    } else {
                        let r = self.x.bin(Op::Add, p, q);
                        let c = self.x.cmp(Op::Ule, ten, r);
                        let r2 = self.x.bin(Op::Sub, r, ten);
                        (self.x.ite(c, r2, r), c)
                    };
                    carry = self.x.ite(c, one, nil);
                    let r = self.x.bin(Op::Add, r, z);
                    out.push(r);
                }
                if !minus {
                    let r = self.x.bin(Op::Add, carry, z);
                    out.push(r);
                }
                out.reverse();
                let m = out.len() - f;
                let d = Digits { neg, int: out[..m].to_vec(), frac: out[m..].to_vec() };
                let r = self.loose(&d, k);
                Ok(Some(self.v(r)))
            }
            2 | 3 => {
                let c = |s: &Self, e: E| s.x.c64(e).map(f64::from_bits);
                let (d, k, v) = if op == 2 && c(self, ea).is_some() { (db, kb, c(self, ea).unwrap()) } else if let Some(v) = c(self, eb) { (da, ka, v) } else { return Ok(None) };
                let v = if op == 3 { 1.0 / v } else { v };
                if v.abs() == 1.0 {
                    let r = self.loose(&Digits { neg: d.neg != (v < 0.0), ..d }, k);
                    return Ok(Some(self.v(r)));
                }
                if v.abs() != 0.5 || k >= 18 {
                    return Ok(None);
                }
                let mut out = vec![];
                let one = self.x.k(1, 8);
                let five = self.x.k(b'5' as u64, 8);
                let mut half = self.x.fals();
                for t in d.int.iter().chain(d.frac.iter()) {
                    let p = self.x.bin(Op::Sub, *t, z);
                    let q = self.x.bin(Op::LShr, p, one);
                    let (lo, hi) = (self.x.bin(Op::Add, q, z), self.x.bin(Op::Add, q, five));
                    let r = self.x.ite(half, hi, lo);
                    out.push(r);
                    let o = self.x.bin(Op::And, p, one);
                    half = self.x.eq(o, one);
                }
                let r = self.x.ite(half, five, z);
                out.push(r);
                let m = d.int.len();
                let d = Digits { neg: d.neg != (v < 0.0), int: out[..m].to_vec(), frac: out[m..].to_vec() };
                let r = self.loose(&d, k + 1);
                Ok(Some(self.v(r)))
            }
            _ => Ok(None),
        }
    }
    fn is_dec_short(&mut self, e: E) -> bool {
        self.x.n(e).op == Op::Dec && self.digits_of(e).is_some()
    }
    pub fn dec_cmp(&mut self, a: &Val, b: &Val) -> Option<(E, E)> {
        let g = |s: &mut Self, v: &Val| -> Option<E> {
            match v {
                Val::I(i) => Some(s.x.k(*i, 64)),
                Val::S(e) if s.x.n(*e).op == Op::Dec => Some(*e),
                _ => None,
            }
        };
        let (ea, eb) = (g(self, a)?, g(self, b)?);
        let (da, db) = (self.digits_of(ea)?, self.digits_of(eb)?);
        let n = da.int.len().max(db.int.len());
        let f = da.frac.len().max(db.frac.len());
        let z = self.ch(b'0');
        let al = |d: &Digits| -> Vec<E> {
            let mut v = vec![z; n - d.int.len()];
            v.extend(&d.int);
            v.extend(&d.frac);
            v.extend(vec![z; f - d.frac.len()]);
            v
        };
        let (x, y) = (al(&da), al(&db));
        let mut eq = self.x.tru();
        let mut lt = self.x.fals();
        let mut gt = self.x.fals();
        let mut zero = self.x.tru();
        for i in 0..n + f {
            let e = self.x.eq(x[i], y[i]);
            let l = self.x.cmp(Op::Ult, x[i], y[i]);
            let g = self.x.cmp(Op::Ult, y[i], x[i]);
            let l = self.x.and1(eq, l);
            let g = self.x.and1(eq, g);
            lt = self.x.or1(lt, l);
            gt = self.x.or1(gt, g);
            eq = self.x.and1(eq, e);
            for q in [x[i], y[i]] {
                let e = self.x.eq(q, z);
                zero = self.x.and1(zero, e);
            }
        }
        let nz = self.x.not(zero);
        Some(match (da.neg, db.neg) {
            (false, false) => (eq, lt),
            (true, true) => (eq, gt),
            (true, false) => (zero, nz),
            (false, true) => (zero, self.x.fals()),
        })
    }
    pub fn dec_neg(&mut self, v: &Val, w: u8) -> Option<Val> {
        if w != 64 {
            return None;
        }
        if let Val::S(e) = v {
            if self.x.n(*e).op == Op::Dec && !self.loose.contains_key(e) {
                let mut t = self.x.dectexts[self.x.n(*e).a as usize].clone();
                let m = self.ch(b'-');
                if t[0] == m {
                    t.remove(0);
                } else {
                    t.insert(0, m);
                }
                return Some(Val::S(self.x.dec(t)));
            }
        }
        None
    }
    /// x - trunc(x) for decimals, where it is exact
    pub fn dec_sub_frac(&mut self, a: E, b: E) -> Option<E> {
        if a == b && self.x.n(a).op == Op::Dec {
            return Some(self.x.k(0, 64));
        }
        // the fraction of a decimal is exact when it is a multiple of 2^-20 below a 9-digit integer part
        if self.x.n(a).op == Op::Dec && self.ftrunc(a) == b {
            if let Some(d) = self.digits_of(a) {
                let f: Option<String> = d.frac.iter().map(|c| self.x.c64(*c).map(|c| c as u8 as char)).collect();
                if let (Some(f), true) = (f, d.int.len() <= 9) {
                    let v: f64 = format!("0.{}", f).parse().unwrap();
                    let s = v * (1u64 << 20) as f64;
                    if s == s.trunc() && v.to_string() == format!("0.{}", f) {
                        let v = if d.neg { -v } else { v };
                        return Some(self.x.k(v.to_bits(), 64));
                    }
                }
            }
        }
        if self.x.cval(b) == Some((-0.0f64).to_bits() as u128) && self.x.n(a).op == Op::Dec {
            return Some(a);
        }
        None
    }
    pub fn ftrunc(&mut self, e: E) -> E {
        if let Some(c) = self.x.c64(e) {
            return self.x.k(f64::from_bits(c).trunc().to_bits(), 64);
        }
        let n = self.x.n(e);
        if n.op == Op::FTrunc {
            return e;
        }
        if n.op == Op::Dec {
            if let Some(mut d) = self.digits_of(e) {
                d.frac.clear();
                if d.int.iter().all(|x| self.x.c64(*x) == Some(b'0' as u64)) {
                    let z = if d.neg { -0.0f64 } else { 0.0 };
                    return self.x.k(z.to_bits(), 64);
                }
                return self.mk_dec(&d);
            }
        }
        self.x.un(Op::FTrunc, 64, e)
    }
    pub fn round15(&mut self, e: E) -> E {
        if let Some(c) = self.x.c64(e) {
            let d = f64::from_bits(c);
            let r = format!("{:.14E}", d).parse::<f64>().unwrap_or(d);
            return self.x.k(r.to_bits(), 64);
        }
        let n = self.x.n(e);
        if n.op == Op::Round15 || (n.op == Op::Dec && self.digits_of(e).is_some()) {
            return e;
        }
        self.x.un(Op::Round15, 64, e)
    }
    /// str -> f64; None = parse error
    pub fn parse_num(&mut self, st: &mut State, bytes: &[E]) -> R<Option<E>> {
        if let Some(e) = self.texts.get(bytes) {
            return Ok(Some(*e));
        }
        // "12." is "12"
        if let Some((l, t)) = bytes.split_last() {
            if self.x.c64(*l) == Some(b'.' as u64) && t.iter().all(|e| self.x.c64(*e) != Some(b'.' as u64)) {
                if let Some(e) = self.texts.get(t) {
                    return Ok(Some(*e));
                }
            }
        }
        let mut cs: Vec<(E, Option<u8>)> = vec![];
        for &b in bytes {
            if let Some(c) = self.x.c64(b) {
                cs.push((b, Some(c as u8)));
                continue;
            }
            if let Some(k) = st.known.get(&b).copied() {
                let e = self.ch(k as u8);
                cs.push((e, Some(k as u8)));
                continue;
            }
            let (lo, hi) = (self.ch(b'0'), self.ch(b'9'));
            let c1 = self.x.cmp(Op::Ule, lo, b);
            let c2 = self.x.cmp(Op::Ule, b, hi);
            let c = self.x.and1(c1, c2);
            if self.cond(st, c)? {
                cs.push((b, None));
            } else {
                let k = self.conc_e(st, b)? as u8;
                let e = self.ch(k);
                cs.push((e, Some(k)));
            }
        }
        if cs.iter().all(|c| c.1.is_some()) {
            let t: Vec<u8> = cs.iter().map(|c| c.1.unwrap()).collect();
            return Ok(match std::str::from_utf8(&t).ok().and_then(|s| s.parse::<f64>().ok()) {
                Some(v) => Some(self.x.k(v.to_bits(), 64)),
                None => None,
            });
        }
        let dig = |c: &(E, Option<u8>)| c.1.map_or(true, |b| b.is_ascii_digit());
        let mut i = 0;
        let mut neg = false;
        if let Some(s @ (b'-' | b'+')) = cs[0].1 {
            neg = s == b'-';
            i = 1;
        }
        let mut d = Digits { neg, int: vec![], frac: vec![] };
        while i < cs.len() && dig(&cs[i]) {
            d.int.push(cs[i].0);
            i += 1;
        }
        if i < cs.len() && cs[i].1 == Some(b'.') {
            i += 1;
            while i < cs.len() && dig(&cs[i]) {
                d.frac.push(cs[i].0);
                i += 1;
            }
        }
        if d.int.is_empty() && d.frac.is_empty() {
            return Ok(None);
        }
        let mut exp = 0i64;
        if i < cs.len() && matches!(cs[i].1, Some(b'e' | b'E')) {
            i += 1;
            let mut eneg = false;
            if i < cs.len() {
                if let Some(s @ (b'-' | b'+')) = cs[i].1 {
                    eneg = s == b'-';
                    i += 1;
                }
            }
            let mut any = false;
            while i < cs.len() && dig(&cs[i]) {
                let k = match cs[i].1 {
                    Some(k) => k,
                    None => self.conc_e(st, cs[i].0)? as u8,
                };
                exp = (exp * 10 + (k - b'0') as i64).min(100000);
                any = true;
                i += 1;
            }
            if !any {
                return Ok(None);
            }
            if eneg {
                exp = -exp;
            }
        }
        if i < cs.len() {
            return Ok(None);
        }
        let z = self.ch(b'0');
        if exp.abs() > 400 {
            return Err(HookRes::End(End::Error("exponent of a symbolic number beyond 400".into())));
        }
        for _ in 0..exp.max(0) {
            if d.frac.is_empty() {
                d.int.push(z);
            } else {
                let f = d.frac.remove(0);
                d.int.push(f);
            }
        }
        for _ in 0..(-exp).max(0) {
            match d.int.pop() {
                Some(x) => d.frac.insert(0, x),
                None => d.frac.insert(0, z),
            }
        }
        while let Some(&f) = d.int.first() {
            let c = self.x.eq(f, z);
            if self.cond(st, c)? {
                d.int.remove(0);
            } else {
                break;
            }
        }
        while let Some(&f) = d.frac.last() {
            let c = self.x.eq(f, z);
            if self.cond(st, c)? {
                d.frac.pop();
            } else {
                break;
            }
        }
        if d.int.is_empty() {
            if d.frac.is_empty() {
                let v = if neg { -0.0f64 } else { 0.0 };
                return Ok(Some(self.x.k(v.to_bits(), 64)));
            }
            d.int.push(z);
        }
        Ok(Some(self.mk_dec(&d)))
    }
    fn shape(&mut self, st: &mut State, e: E, what: u64, n: u64) -> R<u64> {
        // remembered nondeterministic choice about an opaque value
        let key = (e as u64) << 8 | what | 1 << 62;
        if let Some(v) = st.ext.get(&key) {
            return Ok(*v);
        }
        let mut out = vec![];
        for i in 0..n {
            let mut s = st.clone();
            Rc::make_mut(&mut s.ext).insert(key, i);
            s.abs = true;
            out.push(s);
        }
        Err(HookRes::Again(out))
    }
    /// fresh digit characters for an opaque value, the same ones every time
    fn token(&mut self, st: &mut State, e: E, what: u32, n: usize, nonzero: bool) -> Vec<E> {
        let key = (e, what);
        if let Some(t) = self.tokens.get(&key) {
            return t.clone();
        }
        let lo = if nonzero { b'1' } else { b'0' };
        let t: Vec<E> = (0..n).map(|_| self.fresh(st, 8, lo as u64, b'9' as u64, None, 9)).collect();
        self.tokens.insert(key, t.clone());
        t
    }
    fn neg_cond(&mut self, st: &mut State, e: E) -> R<bool> {
        if self.x.n(e).op == Op::Dec {
            let t = &self.x.dectexts[self.x.n(e).a as usize];
            return Ok(self.x.c64(t[0]) == Some(b'-' as u64));
        }
        let s = self.x.extract(e, 63, 1);
        if let Some(v) = self.x.cval(s) {
            return Ok(v == 1);
        }
        self.cond(st, s)
    }
    /// shortest text of a value
    pub fn show_num(&mut self, st: &mut State, e: E) -> R<Vec<E>> {
        if let Some(c) = self.x.c64(e) {
            let s = f64::from_bits(c).to_string();
            return Ok(s.bytes().map(|b| self.x.k(b as u64, 8)).collect());
        }
        if self.is_dec_short(e) {
            if self.loose.contains_key(&e) {
                let d = self.tight(st, e)?.unwrap();
                let mut t = vec![];
                if d.neg {
                    t.push(self.ch(b'-'));
                }
                t.extend(&d.int);
                if !d.frac.is_empty() {
                    t.push(self.ch(b'.'));
                    t.extend(&d.frac);
                }
                return Ok(t);
            }
            return Ok(self.x.dectexts[self.x.n(e).a as usize].clone());
        }
        let n = self.x.n(e);
        let minus = self.ch(b'-');
        let dot = self.ch(b'.');
        let zero = self.ch(b'0');
        // the fractional part of some value
        let mut base = None;
        if n.op == Op::FSub {
            let t = self.ftrunc(n.a);
            if t == n.b {
                base = Some(n.a);
            }
        }
        if let Some(b) = base {
            let neg = self.neg_cond(st, b)?;
            if !self.is_dec_short(b) {
                let t = self.ftrunc(b);
                let c = self.x.fbin(Op::FEq, b, t);
                if self.cond(st, c)? {
                    let mut r = vec![];
                    r.push(zero);
                    return Ok(r);
                }
            }
            let many = self.shape(st, e, 1, 2)?;
            let tok = self.token(st, e, 2 + many as u32, if many == 1 { 17 } else { 2 }, true);
            let mut r = vec![];
            if neg {
                r.push(minus);
            }
            r.extend([zero, dot]);
            r.extend(tok);
            self.texts.insert(r.clone(), e);
            return Ok(r);
        }
        let neg = self.neg_cond(st, e)?;
        let integral = if n.op == Op::FTrunc {
            true
        } else {
            let t = self.ftrunc(e);
            let (a, b) = if e < t { (e, t) } else { (t, e) };
            let c = self.x.fbin(Op::FEq, a, b);
            self.cond(st, c)?
        };
        let mut r = vec![];
        if neg {
            r.push(minus);
        }
        let a = self.token(st, e, 8, 1, true);
        r.extend(a);
        if !integral {
            r.push(dot);
            let b = self.token(st, e, 9, 9, true);
            r.extend(b);
        } else {
            let b = self.token(st, e, 10, 2, true);
            r.extend(b);
        }
        st.abs = true;
        self.texts.insert(r.clone(), e);
        Ok(r)
    }
    /// {:.N} text
    fn show_fixed(&mut self, st: &mut State, e: E, p: usize) -> R<Vec<E>> {
        if let Some(c) = self.x.c64(e) {
            let s = format!("{:.*}", p, f64::from_bits(c));
            return Ok(s.bytes().map(|b| self.x.k(b as u64, 8)).collect());
        }
        let z = self.ch(b'0');
        if let Some(mut d) = self.tight(st, e)? {
            if d.frac.len() <= p {
                let mut t = vec![];
                if d.neg {
                    t.push(self.ch(b'-'));
                }
                t.extend(&d.int);
                if p > 0 {
                    t.push(self.ch(b'.'));
                    while d.frac.len() < p {
                        d.frac.push(z);
                    }
                    t.extend(&d.frac);
                }
                return Ok(t);
            }
        }
        // rounded: unknown digits
        let neg = self.neg_cond(st, e)?;
        let mut t = vec![];
        if neg {
            t.push(self.ch(b'-'));
        }
        let n = match self.digits_of(e) {
            Some(d) => d.int.len(),
            None => 2,
        };
        let a = self.token(st, e, 20 + p as u32, n + p, false);
        t.extend(&a[..n]);
        if p > 0 {
            t.push(self.ch(b'.'));
            t.extend(&a[n..]);
        }
        st.abs = true;
        Ok(t)
    }
    /// {:E} / {:.NE} text
    fn show_exp(&mut self, st: &mut State, e: E, p: Option<usize>, upper: bool) -> R<Vec<E>> {
        if let Some(c) = self.x.c64(e) {
            let d = f64::from_bits(c);
            let s = match (p, upper) {
                (Some(p), true) => format!("{:.*E}", p, d),
                (Some(p), false) => format!("{:.*e}", p, d),
                (None, true) => format!("{:E}", d),
                (None, false) => format!("{:e}", d),
            };
            return Ok(s.bytes().map(|b| self.x.k(b as u64, 8)).collect());
        }
        let z = self.ch(b'0');
        let dot = self.ch(b'.');
        if let Some(d) = self.digits_of(e) {
            // leading digit: the first nonzero one
            let all: Vec<E> = d.int.iter().chain(d.frac.iter()).copied().collect();
            let mut k = 0;
            while k < all.len() {
                let c = self.x.eq(all[k], z);
                if self.cond(st, c)? {
                    k += 1;
                } else {
                    break;
                }
            }
            let mut m = all[k..].to_vec();
            let exp = d.int.len() as i64 - 1 - k as i64;
            // trailing zeros do not count
            while m.len() > 1 {
                let c = self.x.eq(*m.last().unwrap(), z);
                if self.cond(st, c)? {
                    m.pop();
                } else {
                    break;
                }
            }
            let fits = p.map_or(true, |p| m.len() <= p + 1);
            if fits {
                let mut t = vec![];
                if d.neg {
                    t.push(self.ch(b'-'));
                }
                t.push(m[0]);
                let mut rest = m[1..].to_vec();
                if let Some(p) = p {
                    while rest.len() < p {
                        rest.push(z);
                    }
                }
                if !rest.is_empty() {
                    t.push(dot);
                    t.extend(rest);
                }
                for b in format!("{}{}", if upper { 'E' } else { 'e' }, exp).bytes() {
                    t.push(self.x.k(b as u64, 8));
                }
                return Ok(t);
            }
        }
        let neg = self.neg_cond(st, e)?;
        let mut t = vec![];
        if neg {
            t.push(self.ch(b'-'));
        }
        let n = p.unwrap_or(16);
        let tok = self.token(st, e, 60 + p.map_or(99, |p| p as u32), n + 1, true);
        t.push(tok[0]);
        if n > 0 {
            t.push(dot);
            t.extend(&tok[1..]);
        }
        for b in format!("{}2", if upper { 'E' } else { 'e' }).bytes() {
            t.push(self.x.k(b as u64, 8));
        }
        st.abs = true;
        if p.is_none() || p.unwrap() >= 16 {
            self.texts.insert(t.clone(), e);
        } else if p == Some(14) {
            let r = self.round15(e);
            self.texts.insert(t.clone(), r);
        }
        Ok(t)
    }
}

/// hooks
pub fn h_parse(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: Vec<Val>) -> HookRes {
    let r = (|| -> R<HookRes> {
        let ret = x.conc(st, &a[0])?;
        let p = x.conc(st, &a[1])?;
        let n = x.conc(st, &a[2])?;
        let mut bytes = vec![];
        let mut any = false;
        for i in 0..n {
            let v = x.load(st, p + i, 8).map_err(|e| x.segv(st, e))?;
            any |= matches!(v, Val::S(_));
            bytes.push(x.e(&v, 8));
        }
        if !any {
            return Ok(HookRes::Real);
        }
        match x.parse_num(st, &bytes)? {
            Some(e) => {
                let v = x.v(e);
                x.store(st, ret, 8, &Val::I(0)).map_err(|e| x.segv(st, e))?;
                x.store(st, ret + 8, 64, &v).map_err(|e| x.segv(st, e))?;
            }
            None => {
                x.store(st, ret, 8, &Val::I(1)).map_err(|e| x.segv(st, e))?;
                x.store(st, ret + 1, 8, &Val::I(1)).map_err(|e| x.segv(st, e))?;
            }
        }
        Ok(HookRes::Ret(Val::I(0)))
    })();
    match r {
        Ok(h) | Err(h) => h,
    }
}

fn h_show(x: &mut Exec, st: &mut State, a: Vec<Val>, kind: u8) -> HookRes {
    let r = (|| -> R<HookRes> {
        let p = x.conc(st, &a[0])?;
        let f = x.conc(st, &a[1])?;
        let v = x.load(st, p, 64).map_err(|e| x.segv(st, e))?;
        let e = match v {
            Val::S(e) => e,
            _ => return Ok(HookRes::Real),
        };
        let data = x.load(st, f, 64).map_err(|e| x.segv(st, e))?;
        let vt = x.load(st, f + 8, 64).map_err(|e| x.segv(st, e))?;
        let flags = x.load(st, f + 16, 32).map_err(|e| x.segv(st, e))?;
        let prec = x.load(st, f + 22, 16).map_err(|e| x.segv(st, e))?;
        let (flags, prec, vt) = (x.conc(st, &flags)?, x.conc(st, &prec)?, x.conc(st, &vt)?);
        let p = if flags & 0x1000_0000 != 0 { Some(prec as usize) } else { None };
        if flags & 0x0800_0000 != 0 {
            return Err(HookRes::End(End::Error("number printed with a width".into())));
        }
        let mut text = match (kind, p) {
            (0, None) => x.show_num(st, e)?,
            (0, Some(p)) => x.show_fixed(st, e, p)?,
            (1, p) => x.show_exp(st, e, p, true)?,
            (2, p) => x.show_exp(st, e, p, false)?,
            _ => {
                // Debug: as Display, with ".0" for integral values
                let mut t = x.show_num(st, e)?;
                if !t.iter().any(|e| x.x.c64(*e) == Some(b'.' as u64)) {
                    t.push(x.x.k(b'.' as u64, 8));
                    t.push(x.x.k(b'0' as u64, 8));
                    x.texts.insert(t.clone(), e);
                }
                t
            }
        };
        if flags & 0x20_0000 != 0 && x.x.c64(text[0]) != Some(b'-' as u64) {
            let plus = x.x.k(b'+' as u64, 8);
            text.insert(0, plus);
        }
        let buf = st.mem.malloc(text.len() as u64, 1, false);
        for (i, c) in text.iter().enumerate() {
            let v = x.v(*c);
            x.store(st, buf + i as u64, 8, &v).map_err(|e| x.segv(st, e))?;
        }
        let ws = x.load(st, vt + 24, 64).map_err(|e| x.segv(st, e))?;
        let ws = x.conc(st, &ws)?;
        Ok(HookRes::Tail(ws, vec![data, Val::I(buf), Val::I(text.len() as u64)]))
    })();
    match r {
        Ok(h) | Err(h) => h,
    }
}
pub fn h_display(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: Vec<Val>) -> HookRes {
    h_show(x, st, a, 0)
}
pub fn h_upperexp(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: Vec<Val>) -> HookRes {
    h_show(x, st, a, 1)
}
pub fn h_lowerexp(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: Vec<Val>) -> HookRes {
    h_show(x, st, a, 2)
}
pub fn h_debug(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: Vec<Val>) -> HookRes {
    h_show(x, st, a, 3)
}
