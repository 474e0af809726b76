//! Models of the environment: allocator, libc, panics, compiler intrinsics, and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::nums;
use std::rc::Rc;

type R<T> = Result<T, HookRes>;
type A = Vec<Val>;

pub const K_CHOICE: u64 = 1;
pub const K_RANDOM: u64 = 2; // 0 concrete draws, 1 symbolic draws
pub const K_RANDPOS: u64 = 3;
/// the random bytes drawn so far
pub const K_DRAWN: u64 = 1 << 61;
pub const K_HASH: u64 = 4;
pub const K_REUSE: u64 = 5;

fn wrap(r: R<HookRes>) -> HookRes {
    match r {
        Ok(h) | Err(h) => h,
    }
}
fn extget(st: &State, k: u64) -> u64 {
    st.ext.get(&k).copied().unwrap_or(0)
}
fn extset(st: &mut State, k: u64, v: u64) {
    Rc::make_mut(&mut st.ext).insert(k, v);
}
fn ret(v: u64) -> R<HookRes> {
    Ok(HookRes::Ret(Val::I(v)))
}
fn cstr(x: &Exec, st: &State, p: u64, n: u64) -> String {
    let _ = x;
    let mut b = vec![0u8; n as usize];
    let mut s = vec![];
    if st.mem.read_bytes(p, &mut b, &mut s).is_err() {
        return "?".into();
    }
    String::from_utf8_lossy(&b).into_owned()
}
fn location(x: &Exec, st: &State, p: u64) -> Option<String> {
    let f = st.mem.read(p, 8).ok()? as u64;
    let n = st.mem.read(p + 8, 8).ok()? as u64;
    let l = st.mem.read(p + 16, 4).ok()? as u64;
    if n == 0 || n > 300 || l == 0 || l > 100_000 || f < RO_BASE {
        return None;
    }
    let s = cstr(x, st, f, n);
    if !s.contains(".rs") {
        return None;
    }
    let s = s.trim_end_matches('\0');
    let tail: Vec<&str> = s.rsplit('/').take(3).collect();
    let tail: Vec<&str> = tail.into_iter().rev().collect();
    Some(format!("{}:{}", tail.join("/"), l))
}
fn h_panic(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let mut loc = None;
    for v in a.iter().rev() {
        if let Val::I(p) = v {
            if *p >= RO_BASE && *p < HEAP_BASE {
                if let Some(l) = location(x, st, *p) {
                    loc = Some(l);
                    break;
                }
            }
        }
    }
    let name = match &ci.callee {
        Callee::Direct(f) => short(&x.m.funcs[*f as usize].name),
        _ => "indirect".into(),
    };
    let _ = name;
    HookRes::End(End::Panic(match loc {
        Some(l) => l,
        None => format!("in {}", x.here(st)),
    }))
}
fn h_abort(x: &mut Exec, st: &mut State, _c: &'static CallInfo, _a: A) -> HookRes {
    HookRes::End(End::Panic(format!("abort in {}", x.here(st))))
}
fn h_nop(_x: &mut Exec, _st: &mut State, _c: &'static CallInfo, _a: A) -> HookRes {
    HookRes::Ret(Val::I(0))
}
fn h_first(_x: &mut Exec, _st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    HookRes::Ret(a[0].clone())
}
fn h_malloc(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let n = x.conc(st, &a[0])?;
        let p = st.mem.malloc(n, 16, st.merge > 0);
        ret(p)
    })())
}
fn h_calloc(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let n = x.conc(st, &a[0])?;
        let k = x.conc(st, &a[1])?;
        let p = st.mem.malloc(n * k, 16, true);
        st.mem.fill(p, 0, n * k).map_err(|e| x.segv(st, e))?;
        ret(p)
    })())
}
fn h_memalign(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let out = x.conc(st, &a[0])?;
        let al = x.conc(st, &a[1])?;
        let n = x.conc(st, &a[2])?;
        let p = st.mem.malloc(n, al, true);
        x.store(st, out, 64, &Val::I(p)).map_err(|e| x.segv(st, e))?;
        ret(0)
    })())
}
fn h_realloc(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[0])?;
        let n = x.conc(st, &a[1])?;
        let q = st.mem.malloc(n, 16, st.merge > 0);
        if p != 0 {
            let old = st.mem.size_of(p).map_err(|e| x.segv(st, e))?;
            st.mem.copy(q, p, old.min(n)).map_err(|e| x.segv(st, e))?;
            if st.merge > 0 {
                st.mem.fill(p, 0, old).map_err(|e| x.segv(st, e))?;
            }
            let re = extget(st, K_REUSE) == 1;
            st.mem.free_(p, re).map_err(|e| x.segv(st, e))?;
        }
        ret(q)
    })())
}
fn h_free(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[0])?;
        if p != 0 {
            let n = st.mem.size_of(p).map_err(|e| x.segv(st, e))?;
            if st.merge > 0 {
                st.mem.fill(p, 0, n).map_err(|e| x.segv(st, e))?;
            }
            let re = extget(st, K_REUSE) == 1;
            st.mem.free_(p, re).map_err(|e| x.segv(st, e))?;
        }
        ret(0)
    })())
}
fn h_memcpy(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let d = x.conc(st, &a[0])?;
        let s = x.conc(st, &a[1])?;
        let n = x.conc(st, &a[2])?;
        st.mem.copy(d, s, n).map_err(|e| x.segv(st, e))?;
        ret(d)
    })())
}
fn h_memset(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let d = x.conc(st, &a[0])?;
        let n = x.conc(st, &a[2])?;
        match &a[1] {
            Val::I(b) => st.mem.fill(d, *b as u8, n).map_err(|e| x.segv(st, e))?,
            v => {
                let e = x.e(v, 8);
                for i in 0..n {
                    st.mem.write_sym(d + i, e).map_err(|e| x.segv(st, e))?;
                }
            }
        }
        ret(d)
    })())
}
fn bytes(x: &mut Exec, st: &State, p: u64, n: u64) -> R<Vec<E>> {
    let mut b = vec![0u8; n as usize];
    let mut s = vec![];
    st.mem.read_bytes(p, &mut b, &mut s).map_err(|e| x.segv(st, e))?;
    let mut v: Vec<E> = Vec::with_capacity(n as usize);
    let mut k = 0;
    for i in 0..n as usize {
        if k < s.len() && s[k].0 == i {
            v.push(s[k].1);
            k += 1;
        } else {
            v.push(x.x.k(b[i] as u64, 8));
        }
    }
    Ok(v)
}
fn h_bcmp(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let n = x.conc(st, &a[2])?;
        let (u, v) = (bytes_at(x, st, &a[0], n)?, bytes_at(x, st, &a[1], n)?);
        let mut eq = x.x.tru();
        for i in 0..n as usize {
            let e = x.x.eq(u[i], v[i]);
            eq = x.x.and1(eq, e);
            if x.x.cval(eq) == Some(0) {
                break;
            }
        }
        if let Some(b) = x.quick(st, eq) {
            return ret(!b as u64);
        }
        let (z, o) = (x.x.k(0, 32), x.x.k(1, 32));
        let r = x.x.ite(eq, z, o);
        Ok(HookRes::Ret(x.v(r)))
    })())
}
fn h_memcmp(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let n = x.conc(st, &a[2])?;
        let (u, v) = (bytes_at(x, st, &a[0], n)?, bytes_at(x, st, &a[1], n)?);
        let mut r = x.x.k(0, 32);
        let (m, o) = (x.x.k(0xffff_ffff, 32), x.x.k(1, 32));
        for i in (0..n as usize).rev() {
            let lt = x.x.cmp(Op::Ult, u[i], v[i]);
            let gt = x.x.cmp(Op::Ult, v[i], u[i]);
            r = x.x.ite(gt, o, r);
            r = x.x.ite(lt, m, r);
        }
        Ok(HookRes::Ret(x.v(r)))
    })())
}
fn h_strlen(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[0])?;
        let mut n = 0;
        loop {
            let v = x.load(st, p + n, 8).map_err(|e| x.segv(st, e))?;
            if x.conc(st, &v)? == 0 {
                return ret(n);
            }
            n += 1;
        }
    })())
}
fn search(x: &mut Exec, st: &mut State, needle: &Val, p: u64, n: u64) -> R<Option<u64>> {
    let nd = x.e(needle, 8);
    let bs = bytes(x, st, p, n)?;
    for (i, b) in bs.iter().enumerate() {
        let c = x.x.eq(*b, nd);
        if x.cond(st, c)? {
            return Ok(Some(i as u64));
        }
    }
    Ok(None)
}
/// first position of a needle that depends on one byte in constant text, as a table: (found, position)
fn search_table(x: &mut Exec, st: &State, needle: &Val, p: u64, n: u64, base: u64) -> R<Option<(Val, Val)>> {
    let Val::S(e) = needle else { return Ok(None) };
    let Some(v) = x.x.single(*e) else { return Ok(None) };
    if x.x.w(*e) != 8 {
        return Ok(None);
    }
    let bs = bytes(x, st, p, n)?;
    let mut first = [None; 256];
    for (i, b) in bs.iter().enumerate() {
        match x.x.c64(*b) {
            Some(c) => {
                if first[c as usize & 255].is_none() {
                    first[c as usize & 255] = Some(i as u64);
                }
            }
            None => return Ok(None),
        }
    }
    let l = x.x.lane(*e);
    let d = x.dom_of(st, v);
    let ve = x.x.var_e[v as usize];
    let m = 1usize << x.x.w(ve);
    let (mut tf, mut ti) = (vec![0u64; m], vec![0u64; m]);
    let mut dflt = None;
    for i in 0..m {
        if d[i >> 6] >> (i & 63) & 1 == 1 {
            let f = first[l[i] as usize & 255];
            tf[i] = f.is_some() as u64;
            ti[i] = f.map_or(0, |k| base + k);
            if f.is_some() && dflt.is_none() {
                dflt = f;
            }
        }
    }
    // values outside the domain cannot occur: give them an ordinary entry
    for i in 0..m {
        if d[i >> 6] >> (i & 63) & 1 == 0 {
            if let Some(k) = dflt {
                tf[i] = 1;
                ti[i] = base + k;
            }
        }
    }
    let f = x.x.lut(ve, 64, tf);
    let i = x.x.lut(ve, 64, ti);
    Ok(Some((x.v(f), x.v(i))))
}
fn fw(ci: &CallInfo, i: usize) -> u8 {
    ci.ret.field(i).bits() as u8
}
/// n bytes at an address that may be symbolic
fn bytes_at(x: &mut Exec, st: &mut State, p: &Val, n: u64) -> R<Vec<E>> {
    if let Val::S(e) = p {
        if n <= 32 && x.x.single(*e).is_some() {
            let mut v = vec![];
            for i in 0..n {
                let k = x.x.k(i, 64);
                let a = x.x.bin(Op::Add, *e, k);
                let b = x.load_sym(st, a, 8)?;
                v.push(x.e(&b, 8));
            }
            return Ok(v);
        }
    }
    let p = x.conc(st, p)?;
    bytes(x, st, p, n)
}
fn narrow(x: &mut Exec, v: Val, w: u8) -> Val {
    match v {
        Val::S(e) => {
            let e = x.x.extract(e, 0, w);
            x.v(e)
        }
        v => v,
    }
}
fn h_memchr(x: &mut Exec, st: &mut State, _c: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[1])?;
        let n = x.conc(st, &a[2])?;
        if let Some((f, i)) = search_table(x, st, &a[0], p, n, 0)? {
            let w = fw(_c, 0);
            let f = narrow(x, f, w);
            return Ok(HookRes::Ret(Val::A(Rc::new(vec![f, i]))));
        }
        let r = search(x, st, &a[0], p, n)?;
        Ok(HookRes::Ret(Val::A(Rc::new(match r {
            Some(i) => vec![Val::I(1), Val::I(i)],
            None => vec![Val::I(0), Val::I(0)],
        }))))
    })())
}
fn h_memchr_raw(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        if ci.ret.nfields() != 2 {
            return Ok(HookRes::Real);
        }
        let p = x.conc(st, &a[1])?;
        let e = x.conc(st, &a[2])?;
        if let Some((f, i)) = search_table(x, st, &a[0], p, e.saturating_sub(p), p)? {
            let w = fw(ci, 0);
            let f = narrow(x, f, w);
            return Ok(HookRes::Ret(Val::A(Rc::new(vec![f, i]))));
        }
        let r = search(x, st, &a[0], p, e.saturating_sub(p))?;
        Ok(HookRes::Ret(Val::A(Rc::new(match r {
            Some(i) => vec![Val::I(1), Val::I(p + i)],
            None => vec![Val::I(0), Val::I(0)],
        }))))
    })())
}
/// alloc::str::replace(sret, self, from, to): leftmost non-overlapping matches
fn h_replace(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        if ci.args.len() != 7 {
            return Ok(HookRes::Real);
        }
        let mut v = vec![];
        for q in &a {
            v.push(x.conc(st, q)?);
        }
        let s = bytes(x, st, v[1], v[2])?;
        if s.iter().all(|e| x.x.cval(*e).is_some()) {
            return Ok(HookRes::Real);
        }
        let from = bytes(x, st, v[3], v[4])?;
        let to = bytes(x, st, v[5], v[6])?;
        if from.is_empty() {
            return Ok(HookRes::Real);
        }
        let mut out: Vec<E> = vec![];
        let mut i = 0;
        while i < s.len() {
            if i + from.len() <= s.len() {
                let mut c = x.x.tru();
                for k in 0..from.len() {
                    let e = x.x.eq(s[i + k], from[k]);
                    c = x.x.and1(c, e);
                    if x.x.cval(c) == Some(0) {
                        break;
                    }
                }
                if x.x.cval(c) != Some(0) && x.cond(st, c)? {
                    out.extend(&to);
                    i += from.len();
                    continue;
                }
            }
            out.push(s[i]);
            i += 1;
        }
        let n = out.len() as u64;
        let buf = st.mem.malloc(n.max(1), 1, false);
        for (i, c) in out.iter().enumerate() {
            let b = x.v(*c);
            x.store(st, buf + i as u64, 8, &b).map_err(|e| x.segv(st, e))?;
        }
        for (o, q) in [(0, n.max(1)), (8, buf), (16, n)] {
            x.store(st, v[0] + o, 64, &Val::I(q)).map_err(|e| x.segv(st, e))?;
        }
        ret(0)
    })())
}
// ---- intrinsics
fn w0(ci: &CallInfo) -> u8 {
    ci.argw[0] as u8
}
fn h_minmax(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A, signed: bool, max: bool) -> HookRes {
    let _ = st;
    let w = w0(ci);
    let (p, q) = (x.e(&a[0], w), x.e(&a[1], w));
    let lt = x.x.cmp(if signed { Op::Slt } else { Op::Ult }, p, q);
    let r = if max { x.x.ite(lt, q, p) } else { x.x.ite(lt, p, q) };
    HookRes::Ret(x.v(r))
}
fn h_umax(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    h_minmax(x, st, ci, a, false, true)
}
fn h_umin(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    h_minmax(x, st, ci, a, false, false)
}
fn h_smax(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    h_minmax(x, st, ci, a, true, true)
}
fn h_smin(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    h_minmax(x, st, ci, a, true, false)
}
fn h_abs(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    let p = x.e(&a[0], w);
    let z = x.x.k(0, w);
    let n = x.x.bin(Op::Sub, z, p);
    let c = x.x.cmp(Op::Slt, p, z);
    let r = x.x.ite(c, n, p);
    HookRes::Ret(x.v(r))
}
fn h_bswap(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    let p = x.e(&a[0], w);
    let mut acc = x.x.extract(p, 0, 8);
    for i in 1..w / 8 {
        let b = x.x.extract(p, i * 8, 8);
        acc = x.x.concat(acc, b);
    }
    HookRes::Ret(x.v(acc))
}
fn h_bitrev(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    let p = x.e(&a[0], w);
    let mut acc = x.x.extract(p, 0, 1);
    for i in 1..w {
        let b = x.x.extract(p, i, 1);
        acc = x.x.concat(acc, b);
    }
    HookRes::Ret(x.v(acc))
}
fn h_usubsat(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    let (p, q) = (x.e(&a[0], w), x.e(&a[1], w));
    let d = x.x.bin(Op::Sub, p, q);
    let z = x.x.k(0, w);
    let c = x.x.cmp(Op::Ult, p, q);
    let r = x.x.ite(c, z, d);
    HookRes::Ret(x.v(r))
}
fn h_uaddsat(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    let (p, q) = (x.e(&a[0], w), x.e(&a[1], w));
    let d = x.x.bin(Op::Add, p, q);
    let m = x.x.k(mask(w), w);
    let c = x.x.cmp(Op::Ult, d, p);
    let r = x.x.ite(c, m, d);
    HookRes::Ret(x.v(r))
}
fn ovf(x: &mut Exec, ci: &'static CallInfo, a: A, op: Op, signed: bool) -> HookRes {
    let w = w0(ci);
    if let (Val::I(p), Val::I(q)) = (&a[0], &a[1]) {
        let (r, o) = if signed {
            let (p, q) = (sx(*p, w) as i128, sx(*q, w) as i128);
            let r = match op {
                Op::Add => p + q,
                Op::Sub => p - q,
                _ => p * q,
            };
            let t = r as u64 & mask(w);
            (t, sx(t, w) as i128 != r)
        } else {
            let (p, q) = (*p as u128, *q as u128);
            let r = match op {
                Op::Add => p + q,
                Op::Sub => p.wrapping_sub(q),
                _ => p * q,
            };
            (r as u64 & mask(w), r > mask(w) as u128)
        };
        return HookRes::Ret(Val::A(Rc::new(vec![Val::I(r), Val::I(o as u64)])));
    }
    let (p, q) = (x.e(&a[0], w), x.e(&a[1], w));
    let r = x.x.bin(op, p, q);
    let o = if signed {
        let range = |x: &Exec, e: E| -> (i128, i128) {
            let (l, h) = x.x.iv[e as usize];
            let top = 1i128 << (w - 1);
            let (l, h) = (l as i128, h as i128);
            if h < top {
                (l, h)
            } else if l >= top {
                (l - 2 * top, h - 2 * top)
            } else {
                (-top, top - 1)
            }
        };
        if w <= 64 {
            let ((a, b), (c, d)) = (range(x, p), range(x, q));
            let (lo, hi) = match op {
                Op::Add => (a + c, b + d),
                Op::Sub => (a - d, b - c),
                _ => {
                    let v = [a * c, a * d, b * c, b * d];
                    (*v.iter().min().unwrap(), *v.iter().max().unwrap())
                }
            };
            let (min, max) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            let o = if lo >= min && hi <= max {
                Some(x.x.fals())
            } else if lo > max || hi < min {
                Some(x.x.tru())
            } else if op == Op::Add && a >= 0 && c >= 0 {
                let m = x.x.k(max as u64, w);
                Some(x.x.cmp(Op::Ult, m, r))
            } else if op == Op::Sub && b < 0 && c >= 0 {
                // negative minus non-negative: the result must be negative
                let m = x.x.k(max as u64 + 1, w);
                Some(x.x.cmp(Op::Ult, r, m))
            } else if op == Op::Mul && c == d && c > 0 && a >= 0 {
                let m = x.x.k((max / c) as u64, w);
                Some(x.x.cmp(Op::Ult, m, p))
            } else if op == Op::Mul && c == d && c > 0 && b < 0 {
                let m = x.x.k((min / c) as u64 & mask(w), w);
                Some(x.x.cmp(Op::Ult, p, m))
            } else {
                None
            };
            if let Some(o) = o {
                let (rv, ov) = (x.v(r), x.v(o));
                return HookRes::Ret(Val::A(Rc::new(vec![rv, ov])));
            }
        }
        // widen
        let ww = if op == Op::Mul { w * 2 } else { w + 1 };
        let (pp, qq) = (x.x.sext(p, ww), x.x.sext(q, ww));
        let rr = x.x.bin(op, pp, qq);
        let se = x.x.sext(r, ww);
        x.x.ne(rr, se)
    } else {
        match op {
            Op::Add => {
                // no carry possible?
                let (b1, b2) = (x.x.iv[p as usize].1 as u128, x.x.iv[q as usize].1 as u128);
                if w <= 64 && b1 + b2 <= mask(w) as u128 {
                    x.x.fals()
                } else if let Some(c) = x.x.carry(p, q) {
                    c
                } else {
                    x.x.cmp(Op::Ult, r, p)
                }
            }
            Op::Sub => x.x.cmp(Op::Ult, p, q),
            _ => {
                let (b1, b2) = (x.x.iv[p as usize].1 as u128, x.x.iv[q as usize].1 as u128);
                if w <= 64 && b1.checked_mul(b2).map_or(false, |m| m <= mask(w) as u128) {
                    x.x.fals()
                } else if let Some(k) = x.x.c64(q).filter(|k| *k > 0) {
                    // p > max / k
                    let m = x.x.k(mask(w) / k, w);
                    x.x.cmp(Op::Ult, m, p)
                } else if let Some(k) = x.x.c64(p).filter(|k| *k > 0) {
                    let m = x.x.k(mask(w) / k, w);
                    x.x.cmp(Op::Ult, m, q)
                } else {
                    let ww = w * 2;
                    let (pp, qq) = (x.x.zext(p, ww), x.x.zext(q, ww));
                    let rr = x.x.bin(Op::Mul, pp, qq);
                    let hi = x.x.extract(rr, w, w);
                    let z = x.x.k(0, w);
                    x.x.ne(hi, z)
                }
            }
        }
    };
    let (rv, ov) = (x.v(r), x.v(o));
    HookRes::Ret(Val::A(Rc::new(vec![rv, ov])))
}
fn h_uaddo(x: &mut Exec, _s: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    ovf(x, ci, a, Op::Add, false)
}
fn h_usubo(x: &mut Exec, _s: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    ovf(x, ci, a, Op::Sub, false)
}
fn h_umulo(x: &mut Exec, _s: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    ovf(x, ci, a, Op::Mul, false)
}
fn h_saddo(x: &mut Exec, _s: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    ovf(x, ci, a, Op::Add, true)
}
fn h_ssubo(x: &mut Exec, _s: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    ovf(x, ci, a, Op::Sub, true)
}
fn h_smulo(x: &mut Exec, _s: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    ovf(x, ci, a, Op::Mul, true)
}
fn h_isconst(_x: &mut Exec, _s: &mut State, _ci: &'static CallInfo, _a: A) -> HookRes {
    HookRes::Ret(Val::I(0))
}
fn h_ctlz(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    if let Val::I(v) = a[0] {
        return HookRes::Ret(Val::I((v << (64 - w)).leading_zeros().min(w as u32) as u64));
    }
    let p = x.e(&a[0], w);
    let mut r = x.x.k(w as u64, w);
    for i in 0..w {
        let b = x.x.extract(p, i, 1);
        let k = x.x.k((w - 1 - i) as u64, w);
        r = x.x.ite(b, k, r);
    }
    HookRes::Ret(x.v(r))
}
fn h_cttz(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    if let Val::I(v) = a[0] {
        return HookRes::Ret(Val::I(if v == 0 { w as u64 } else { v.trailing_zeros() as u64 }));
    }
    let p = x.e(&a[0], w);
    let mut r = x.x.k(w as u64, w);
    for i in (0..w).rev() {
        let b = x.x.extract(p, i, 1);
        let k = x.x.k(i as u64, w);
        r = x.x.ite(b, k, r);
    }
    HookRes::Ret(x.v(r))
}
fn h_ctpop(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    let w = w0(ci);
    if let Val::I(v) = a[0] {
        return HookRes::Ret(Val::I(v.count_ones() as u64));
    }
    let p = x.e(&a[0], w);
    let mut r = x.x.k(0, w);
    for i in 0..w {
        let b = x.x.extract(p, i, 1);
        let b = x.x.zext(b, w);
        r = x.x.bin(Op::Add, r, b);
    }
    HookRes::Ret(x.v(r))
}
fn fsh(x: &mut Exec, ci: &'static CallInfo, a: A, left: bool) -> HookRes {
    let w = w0(ci);
    let (hi, lo, s) = (x.e(&a[0], w), x.e(&a[1], w), x.e(&a[2], w));
    match x.x.c64(s) {
        Some(s) => {
            let s = (s % w as u64) as u8;
            let r = if left {
                if s == 0 {
                    hi
                } else {
                    let h = x.x.extract(hi, 0, w - s);
                    let l = x.x.extract(lo, w - s, s);
                    x.x.concat(h, l)
                }
            } else if s == 0 {
                lo
            } else {
                let h = x.x.extract(hi, 0, s);
                let l = x.x.extract(lo, s, w - s);
                x.x.concat(h, l)
            };
            HookRes::Ret(x.v(r))
        }
        None => HookRes::End(End::Error("funnel shift by a symbolic amount".into())),
    }
}
fn h_fshl(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    fsh(x, ci, a, true)
}
fn h_fshr(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    fsh(x, ci, a, false)
}
fn cmp3(x: &mut Exec, ci: &'static CallInfo, a: A, signed: bool) -> HookRes {
    let w = w0(ci);
    let rw = ci.ret.bits() as u8;
    let (p, q) = (x.e(&a[0], w), x.e(&a[1], w));
    let op = if signed { Op::Slt } else { Op::Ult };
    let (lt, gt) = (x.x.cmp(op, p, q), x.x.cmp(op, q, p));
    let (m, o, z) = (x.x.k(mask(rw), rw), x.x.k(1, rw), x.x.k(0, rw));
    let r = x.x.ite(gt, o, z);
    let r = x.x.ite(lt, m, r);
    HookRes::Ret(x.v(r))
}
fn h_ucmp(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    cmp3(x, ci, a, false)
}
fn h_scmp(x: &mut Exec, _st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    cmp3(x, ci, a, true)
}
fn h_trunc(x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    let e = x.e(&a[0], 64);
    let r = x.ftrunc(e);
    HookRes::Ret(x.v(r))
}
fn h_fabs(x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    let e = x.e(&a[0], 64);
    if x.x.n(e).op == Op::Dec {
        let t = x.x.dectexts[x.x.n(e).a as usize].clone();
        let m = x.x.k(b'-' as u64, 8);
        let r = if t[0] == m { x.x.dec(t[1..].to_vec()) } else { e };
        if let Some(k) = x.loose.get(&e).copied() {
            x.loose.insert(r, k);
        }
        return HookRes::Ret(Val::S(r));
    }
    let m = x.x.k(i64::MAX as u64, 64);
    let r = x.x.bin(Op::And, e, m);
    HookRes::Ret(x.v(r))
}
/// llvm.is.fpclass: the classes, lowest bit first: signalling and quiet nan, -inf, -normal, -subnormal, -0, +0, +subnormal,
/// +normal, +inf
fn h_fpclass(x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    let Val::I(m) = a[1] else { return HookRes::End(End::Error("floating point class".into())) };
    let e = x.e(&a[0], 64);
    if x.x.n(e).op == Op::Dec {
        let t = x.x.dectexts[x.x.n(e).a as usize].clone();
        let minus = x.x.k(b'-' as u64, 8);
        let (n, z) = if t[0] == minus { (m >> 3 & 3, m >> 5 & 1) } else { (m >> 7 & 3, m >> 6 & 1) };
        if n == 1 || n == 2 {
            return HookRes::End(End::Error("normal and subnormal decimals".into()));
        }
        let zero = match x.fcmp(1, 64, a[0].clone(), Val::I(0)) {
            Val::I(v) => x.x.k(v & 1, 1),
            v => x.e(&v, 1),
        };
        let (yes, no) = (x.x.k(z, 1), x.x.k((n == 3) as u64, 1));
        let r = x.x.ite(zero, yes, no);
        return HookRes::Ret(x.v(r));
    }
    let (abs, inf, quiet, min, zero) = (x.x.k(i64::MAX as u64, 64), x.x.k(0x7ff << 52, 64), x.x.k(0xfff << 51, 64), x.x.k(1 << 52, 64), x.x.k(0, 64));
    let mag = x.x.bin(Op::And, e, abs);
    let pos = x.x.eq(mag, e);
    let neg = x.x.not(pos);
    let is_inf = x.x.eq(mag, inf);
    let is_nan = x.x.cmp(Op::Ult, inf, mag);
    let signalling = x.x.cmp(Op::Ult, mag, quiet);
    let is_zero = x.x.eq(mag, zero);
    let below = x.x.cmp(Op::Ult, mag, min);
    let finite = x.x.cmp(Op::Ult, mag, inf);
    let (nz, nb, ns) = (x.x.not(is_zero), x.x.not(below), x.x.not(signalling));
    let sub = x.x.and1(below, nz);
    let normal = x.x.and1(finite, nb);
    let classes = [(is_nan, signalling), (is_nan, ns), (is_inf, neg), (normal, neg), (sub, neg), (is_zero, neg), (is_zero, pos), (sub, pos), (normal, pos), (is_inf, pos)];
    let mut r = x.x.fals();
    for (i, (c, d)) in classes.into_iter().enumerate() {
        if m >> i & 1 == 1 {
            let q = x.x.and1(c, d);
            r = x.x.or1(r, q);
        }
    }
    HookRes::Ret(x.v(r))
}
fn h_sqrt(_x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    match &a[0] {
        Val::I(v) => HookRes::Ret(Val::I(f64::from_bits(*v).sqrt().to_bits())),
        _ => HookRes::End(End::Error("square root of a symbolic number".into())),
    }
}
fn h_fconst(x: &mut Exec, f: fn(f64) -> f64, a: A) -> HookRes {
    match &a[0] {
        Val::I(v) => HookRes::Ret(Val::I(f(f64::from_bits(*v)).to_bits())),
        v => {
            // integral decimals are fixed points of every rounding
            let e = x.e(v, 64);
            let t = x.ftrunc(e);
            if t == e && x.x.n(e).op == Op::Dec {
                return HookRes::Ret(v.clone());
            }
            HookRes::End(End::Error("rounding function of a symbolic number".into()))
        }
    }
}
fn h_floor(x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    h_fconst(x, f64::floor, a)
}
fn h_ceil(x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    h_fconst(x, f64::ceil, a)
}
fn h_round(x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    h_fconst(x, f64::round, a)
}
fn h_rint(x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    h_fconst(x, f64::round_ties_even, a)
}
/// float -> int saturating
fn h_fptosat(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A, signed: bool) -> HookRes {
    let rw = ci.ret.bits() as u8;
    match &a[0] {
        Val::I(v) => {
            let d = f64::from_bits(*v);
            let r = match (signed, rw) {
                (true, 64) => d as i64 as u64,
                (true, 32) => d as i32 as u32 as u64,
                (true, 16) => d as i16 as u16 as u64,
                (true, _) => d as i8 as u8 as u64,
                (false, 64) => d as u64,
                (false, 32) => d as u32 as u64,
                (false, 16) => d as u16 as u64,
                (false, _) => d as u8 as u64,
            };
            HookRes::Ret(Val::I(r))
        }
        v => {
            let e = x.e(v, 64);
            // decimals: the integer digits, when they fit
            let t = x.ftrunc(e);
            if let Some(d) = x.digits_of(t) {
                if d.int.len() <= 15 && (!d.neg || signed) && rw == 64 {
                    let mut acc = x.x.k(0, 64);
                    let ten = x.x.k(10, 64);
                    for c in &d.int {
                        let z = x.x.k(b'0' as u64, 8);
                        let q = x.x.bin(Op::Sub, *c, z);
                        let q = x.x.zext(q, 64);
                        acc = x.x.bin(Op::Mul, acc, ten);
                        acc = x.x.bin(Op::Add, acc, q);
                    }
                    if d.neg {
                        let z = x.x.k(0, 64);
                        acc = x.x.bin(Op::Sub, z, acc);
                    }
                    return HookRes::Ret(x.v(acc));
                }
            }
            st.abs = true;
            HookRes::End(End::Error("integer of a symbolic number".into()))
        }
    }
}
fn h_fptosisat(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    h_fptosat(x, st, ci, a, true)
}
fn h_fptouisat(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    h_fptosat(x, st, ci, a, false)
}
fn h_assume(_x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, _a: A) -> HookRes {
    HookRes::Ret(Val::I(0))
}
fn h_lifetime(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    if st.merge > 0 {
        let _ = x;
        if let Some(Val::I(p)) = a.last() {
            if let Some((_, n)) = st.cur.allocas.iter().find(|q| q.0 == *p).copied() {
                let _ = st.mem.fill(*p, 0, n);
            }
        }
    }
    HookRes::Ret(Val::I(0))
}
// ---- environment
fn random_byte(x: &mut Exec, st: &mut State) -> Val {
    let pos = extget(st, K_RANDPOS);
    extset(st, K_RANDPOS, pos + 1);
    if extget(st, K_RANDOM) == 1 {
        let e = x.fresh_in(st, 8, 0, 255, None, 4);
        extset(st, K_DRAWN | pos, e as u64);
        return Val::S(e);
    }
    let mut z = (pos + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ x.seed.wrapping_mul(0xD1B54A32D192ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    Val::I((z >> 32) & 255)
}
fn fill_random(x: &mut Exec, st: &mut State, p: u64, n: u64) -> R<()> {
    for i in 0..n {
        let v = random_byte(x, st);
        x.store(st, p + i, 8, &v).map_err(|e| x.segv(st, e))?;
    }
    Ok(())
}
fn h_syscall(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let n = x.conc(st, &a[0])?;
        if n == 318 {
            let p = x.conc(st, &a[1])?;
            let k = x.conc(st, &a[2])?;
            fill_random(x, st, p, k)?;
            return ret(k);
        }
        Err(HookRes::End(End::Error(format!("syscall {}", n))))
    })())
}
fn h_dlsym(_x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, _a: A) -> HookRes {
    HookRes::Ret(Val::I(0))
}
fn h_random_file(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[0])?;
        let k = x.conc(st, &a[1])?;
        fill_random(x, st, p, k)?;
        ret(0)
    })())
}
fn h_getrandom(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[0])?;
        let k = x.conc(st, &a[1])?;
        fill_random(x, st, p, k)?;
        ret(k)
    })())
}
fn h_hashkeys(x: &mut Exec, st: &mut State, ci: &'static CallInfo, _a: A) -> HookRes {
    let s = extget(st, K_HASH).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def0;
    let _ = x;
    if ci.ret.nfields() != 2 {
        return HookRes::End(End::Error("hashmap_random_keys signature".into()));
    }
    HookRes::Ret(Val::A(Rc::new(vec![Val::I(s), Val::I(s.rotate_left(17) ^ 0x5555)])))
}
fn h_errno(_x: &mut Exec, _st: &mut State, _ci: &'static CallInfo, _a: A) -> HookRes {
    HookRes::Ret(Val::I(HEAP_BASE + 16))
}
fn h_write(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let n = x.conc(st, &a[2])?;
        ret(n)
    })())
}
fn h_clock(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[1])?;
        x.store(st, p, 64, &Val::I(1_700_000_000)).map_err(|e| x.segv(st, e))?;
        x.store(st, p + 8, 64, &Val::I(123_000_000)).map_err(|e| x.segv(st, e))?;
        ret(0)
    })())
}
// ---- harness interface
fn ret_sym(x: &mut Exec, e: E, ci: &CallInfo) -> HookRes {
    let w = ci.ret.bits() as u8;
    let e = if w > x.x.w(e) { x.x.zext(e, w) } else { e };
    HookRes::Ret(x.v(e))
}
fn h_byte_range(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let lo = x.conc(st, &a[0])? & 255;
        let hi = x.conc(st, &a[1])? & 255;
        let e = x.fresh_in(st, 8, lo, hi, None, 0);
        Ok(ret_sym(x, e, ci))
    })())
}
fn h_byte_set(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let mut s = [0u64; 4];
        for i in 0..4 {
            s[i] = x.conc(st, &a[i])?;
        }
        let lo = lowest(&s);
        let mut hi = lo;
        for i in 0..256u64 {
            if s[i as usize >> 6] >> (i & 63) & 1 == 1 {
                hi = i;
            }
        }
        let e = x.fresh_in(st, 8, lo, hi, Some(s), 0);
        Ok(ret_sym(x, e, ci))
    })())
}
fn h_u64(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let lo = x.conc(st, &a[0])?;
        let hi = x.conc(st, &a[1])?;
        let e = x.fresh_in(st, 64, lo, hi, None, 1);
        Ok(ret_sym(x, e, ci))
    })())
}
/// an arbitrary finite double whose exponent field lies in [lo, hi]; neg = 1 allows negative values
fn h_f64(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let lo = x.conc(st, &a[0])?;
        let hi = x.conc(st, &a[1])?;
        let neg = x.conc(st, &a[2])?;
        let e = if neg == 0 {
            x.fresh_in(st, 64, lo << 52, (hi << 52) | ((1 << 52) - 1), None, 2)
        } else {
            let e = x.fresh_in(st, 64, 0, u64::MAX, None, 2);
            let f = x.x.extract(e, 52, 11);
            let (l, h) = (x.x.k(lo, 11), x.x.k(hi, 11));
            let c1 = x.x.cmp(Op::Ule, l, f);
            let c2 = x.x.cmp(Op::Ule, f, h);
            let c = x.x.and1(c1, c2);
            x.assume(st, c)?;
            e
        };
        Ok(ret_sym(x, e, ci))
    })())
}
fn h_choice(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let n = x.conc(st, &a[0])?;
        let c = extget(st, K_CHOICE);
        if c > 0 {
            extset(st, K_CHOICE, 0);
            Rc::make_mut(&mut st.inputs).push((3, Val::I(c - 1)));
            return ret(c - 1);
        }
        let mut v = vec![];
        for i in 0..n {
            let mut s = st.clone();
            extset(&mut s, K_CHOICE, i + 1);
            v.push(s);
        }
        Ok(HookRes::Again(v))
    })())
}
fn to_bool(x: &mut Exec, v: &Val, w: u16) -> E {
    match v {
        Val::I(i) => x.x.k(i & 1, 1),
        Val::S(e) => {
            let e = *e;
            let _ = w;
            if x.x.w(e) == 1 {
                e
            } else {
                x.x.extract(e, 0, 1)
            }
        }
        _ => panic!(),
    }
}
fn name_arg(x: &mut Exec, st: &mut State, p: &Val, n: &Val) -> R<String> {
    let p = x.conc(st, p)?;
    let n = x.conc(st, n)?;
    Ok(cstr(x, st, p, n))
}
fn h_sassume(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let c = to_bool(x, &a[0], ci.argw[0]);
        x.assume(st, c)?;
        ret(0)
    })())
}
fn h_sassert(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let c = to_bool(x, &a[0], ci.argw[0]);
        let id = name_arg(x, st, &a[1], &a[2])?;
        x.assert(st, c, &id)?;
        ret(0)
    })())
}
fn h_seq(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[0])?;
        let n = x.conc(st, &a[1])?;
        let q = x.conc(st, &a[2])?;
        let m = x.conc(st, &a[3])?;
        let id = name_arg(x, st, &a[4], &a[5])?;
        let c = if n != m {
            x.x.fals()
        } else {
            let (u, v) = (bytes(x, st, p, n)?, bytes(x, st, q, n)?);
            let mut c = x.x.tru();
            for i in 0..n as usize {
                let e = x.x.eq(u[i], v[i]);
                if x.dbg && x.x.cval(e).is_none() {
                    eprintln!("  {} == {}", x.x.show(u[i], 14), x.x.show(v[i], 14));
                }
                c = x.x.and1(c, e);
            }
            c
        };
        if x.dbg && x.x.cval(c) == Some(0) {
            for (b, k) in [(p, n), (q, m)] {
                let v = bytes(x, st, b, k)?;
                let t: String = v.iter().map(|e| x.x.c64(*e).map_or('?', |c| c as u8 as char)).collect();
                eprintln!("  [{}] {}", id, t);
            }
        }
        x.assert(st, c, &id)?;
        ret(0)
    })())
}
/// equality of two doubles as values (bit-exact or numerically equal decimals)
fn h_feq(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let id = name_arg(x, st, &a[2], &a[3])?;
        let (p, q) = (x.e(&a[0], 64), x.e(&a[1], 64));
        let c = if p == q {
            x.x.tru()
        } else {
            let v = x.fcmp(1, 64, a[0].clone(), a[1].clone());
            x.e(&v, 1)
        };
        x.assert(st, c, &id)?;
        ret(0)
    })())
}
fn h_cover(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let id = name_arg(x, st, &a[0], &a[1])?;
        let k = match x.cover_idx.get(&id) {
            Some(k) => *k,
            None => {
                let k = x.cover_names.len() as u32;
                x.cover_names.push(id.clone());
                x.cover_idx.insert(id, k);
                k
            }
        };
        if !st.covers.contains(&k) {
            Rc::make_mut(&mut st.covers).push(k);
        }
        ret(0)
    })())
}
fn h_merge(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        st.merge = x.conc(st, &a[0])? as u8;
        ret(0)
    })())
}
fn h_expect_panic(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        st.expect_panic = x.conc(st, &a[0])? & 1 == 1;
        ret(0)
    })())
}
fn h_srandom(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let v = x.conc(st, &a[0])?;
        extset(st, K_RANDOM, v);
        ret(0)
    })())
}
/// the byte drawn `a[0]` draws ago
fn h_sdrawn(x: &mut Exec, st: &mut State, ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let k = x.conc(st, &a[0])?;
        let pos = extget(st, K_RANDPOS);
        if extget(st, K_RANDOM) != 1 || k >= pos {
            return Err(HookRes::End(End::Error("no such random byte".into())));
        }
        let e = extget(st, K_DRAWN | (pos - 1 - k)) as E;
        Ok(ret_sym(x, e, ci))
    })())
}
fn h_shash(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let v = x.conc(st, &a[0])?;
        extset(st, K_HASH, v);
        ret(0)
    })())
}
fn h_note(x: &mut Exec, st: &mut State, _ci: &'static CallInfo, a: A) -> HookRes {
    wrap((|| {
        let p = x.conc(st, &a[0])?;
        let n = x.conc(st, &a[1])?;
        if x.dbg {
            let bs = bytes(x, st, p, n)?;
            let s: String = bs.iter().map(|e| x.x.c64(*e).map_or("?".to_string(), |c| (c as u8 as char).to_string())).collect();
            eprintln!("note: {}", s);
        }
        ret(0)
    })())
}

/// name -> model
pub fn table(m: &Module) -> Vec<Option<Hook>> {
    let mut v: Vec<Option<Hook>> = vec![None; m.funcs.len()];
    for (i, f) in m.funcs.iter().enumerate() {
        v[i] = pick(&f.name, f.text.is_some());
    }
    v
}
fn pick(n: &str, defined: bool) -> Option<Hook> {
    let exact: Option<Hook> = match n {
        "malloc" => Some(h_malloc),
        "calloc" => Some(h_calloc),
        "realloc" => Some(h_realloc),
        "free" => Some(h_free),
        "posix_memalign" => Some(h_memalign),
        "bcmp" => Some(h_bcmp),
        "memcmp" => Some(h_memcmp),
        "memcpy" | "memmove" => Some(h_memcpy),
        "memset" => Some(h_memset),
        "strlen" => Some(h_strlen),
        "trunc" => Some(h_trunc),
        "floor" => Some(h_floor),
        "ceil" => Some(h_ceil),
        "abort" => Some(h_abort),
        "getenv" => Some(h_nop),
        "__cxa_thread_atexit_impl" => Some(h_nop),
        "__errno_location" => Some(h_errno),
        "syscall" => Some(h_syscall),
        "getrandom" => Some(h_getrandom),
        "dlsym" => Some(h_dlsym),
        "write" => Some(h_write),
        "clock_gettime" => Some(h_clock),
        "sym_byte_range" => Some(h_byte_range),
        "sym_byte_set" => Some(h_byte_set),
        "sym_u64" => Some(h_u64),
        "sym_f64" => Some(h_f64),
        "sym_choice" => Some(h_choice),
        "sym_assume" => Some(h_sassume),
        "sym_assert" => Some(h_sassert),
        "sym_eq" => Some(h_seq),
        "sym_feq" => Some(h_feq),
        "sym_cover" => Some(h_cover),
        "sym_merge" => Some(h_merge),
        "sym_expect_panic" => Some(h_expect_panic),
        "sym_random" => Some(h_srandom),
        "sym_drawn" => Some(h_sdrawn),
        "sym_hash" => Some(h_shash),
        "sym_note" => Some(h_note),
        _ => None,
    };
    if exact.is_some() {
        return exact;
    }
    if let Some(i) = n.strip_prefix("llvm.") {
        let h: Hook = if i.starts_with("lifetime") {
            h_lifetime
        } else if i.starts_with("assume") || i.starts_with("experimental.noalias") || i.starts_with("x86.sse2.pause") || i.starts_with("dbg") || i.starts_with("donothing") || i.starts_with("prefetch") {
            h_assume
        } else if i.starts_with("memcpy") || i.starts_with("memmove") {
            h_memcpy
        } else if i.starts_with("memset") {
            h_memset
        } else if i.starts_with("umax") {
            h_umax
        } else if i.starts_with("umin") {
            h_umin
        } else if i.starts_with("smax") {
            h_smax
        } else if i.starts_with("smin") {
            h_smin
        } else if i.starts_with("abs.") {
            h_abs
        } else if i.starts_with("bswap") {
            h_bswap
        } else if i.starts_with("bitreverse") {
            h_bitrev
        } else if i.starts_with("usub.sat") {
            h_usubsat
        } else if i.starts_with("uadd.sat") {
            h_uaddsat
        } else if i.starts_with("uadd.with") {
            h_uaddo
        } else if i.starts_with("usub.with") {
            h_usubo
        } else if i.starts_with("umul.with") {
            h_umulo
        } else if i.starts_with("sadd.with") {
            h_saddo
        } else if i.starts_with("ssub.with") {
            h_ssubo
        } else if i.starts_with("smul.with") {
            h_smulo
        } else if i.starts_with("is.constant") {
            h_isconst
        } else if i.starts_with("ctlz") {
            h_ctlz
        } else if i.starts_with("cttz") {
            h_cttz
        } else if i.starts_with("ctpop") {
            h_ctpop
        } else if i.starts_with("fshl") {
            h_fshl
        } else if i.starts_with("fshr") {
            h_fshr
        } else if i.starts_with("ucmp") {
            h_ucmp
        } else if i.starts_with("scmp") {
            h_scmp
        } else if i == "trunc.f64" {
            h_trunc
        } else if i == "floor.f64" {
            h_floor
        } else if i == "ceil.f64" {
            h_ceil
        } else if i == "round.f64" {
            h_round
        } else if i == "rint.f64" || i == "roundeven.f64" || i == "nearbyint.f64" {
            h_rint
        } else if i == "sqrt.f64" {
            h_sqrt
        } else if i == "is.fpclass.f64" {
            h_fpclass
        } else if i == "fabs.f64" {
            h_fabs
        } else if i.starts_with("fptosi.sat") && i.ends_with("f64") {
            h_fptosisat
        } else if i.starts_with("fptoui.sat") && i.ends_with("f64") {
            h_fptouisat
        } else if i.starts_with("threadlocal.address") || i.starts_with("expect") || i.starts_with("launder") || i.starts_with("ptrmask") && false {
            h_first
        } else if i.starts_with("trap") {
            h_abort
        } else {
            return None;
        };
        return Some(h);
    }
    if !defined {
        return None;
    }
    if n.contains("4core9panicking") || n.contains("4core6option13expect_failed") || n.contains("4core6option13unwrap_failed") || n.contains("4core6result13unwrap_failed") || n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic")) || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("16slice_error_fail") || n.contains("5slice5index") && n.contains("fail") {
        if n.contains("5count") {
            return None;
        }
        return Some(h_panic);
    }
    if n.contains("4core3num") && n.contains("parse") && n.ends_with("FromStr8from_str") && n.contains("float_parsed") {
        return Some(nums::h_parse);
    }
    if n.contains("4core3fmt5floatd") {
        if n.ends_with("7Display3fmt") {
            return Some(nums::h_display);
        }
        if n.ends_with("8UpperExp3fmt") {
            return Some(nums::h_upperexp);
        }
        if n.ends_with("8LowerExp3fmt") {
            return Some(nums::h_lowerexp);
        }
        if n.ends_with("5Debug3fmt") {
            return Some(nums::h_debug);
        }
    }
    if n.contains("5alloc3stre7replace") {
        return Some(h_replace);
    }
    if n.contains("4core5slice6memchr14memchr_aligned") {
        return Some(h_memchr);
    }
    if n.contains("10memchr_raw6detect") || n.contains("10memchr_raw9find_sse2") || n.contains("10memchr_raw9find_avx2") {
        return Some(h_memchr_raw);
    }
    if n.contains("9getrandom8backends") && n.ends_with("17use_file_fallback") {
        return Some(h_random_file);
    }
    if n.contains("hashmap_random_keys") {
        return Some(h_hashkeys);
    }
    None
}
