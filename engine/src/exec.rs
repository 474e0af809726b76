//! Symbolic executor for the register code.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{has_uf, Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<Val>,
    pub pc: u32,
    pub sp: u64,
    pub dst: u32,
    pub ret_edge: Option<&'static Edge>,
    pub allocas: Vec<(u64, u64)>,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub model: Rc<Vec<u64>>,
    pub dom: Rc<Vec<[u64; 4]>>,
    pub cons: Rc<Vec<E>>,
    pub known: Rc<FxMap<E, u64>>,
    pub inputs: Rc<Vec<(u8, Val)>>,
    pub covers: Rc<Vec<u32>>,
    pub merge: u8,
    pub steps: u64,
    pub expect_panic: bool,
    pub forks: u32,
    pub abs: bool, // relies on an over-approximated choice
    pub ext: Rc<FxMap<u64, u64>>, // small extension map for hooks (tls keys, counters)
}

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Panic(String),
    /// more steps or memory than any text of this size needs
    Endless(String),
    Infeasible,
    Error(String),
    Exit(i64),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    No,
    Block(usize, u32), // stack depth, block
    Ret(usize),        // returned from this depth
}

pub enum HookRes {
    Ret(Val),
    Again(Vec<State>), // re-execute the call in these states
    End(End),
    Real,
    Tail(u64, Vec<Val>),
}
pub type Hook = fn(&mut Exec, &mut State, &'static CallInfo, Vec<Val>) -> HookRes;

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: String,
    pub inputs: Vec<(u8, u64)>,
    pub abstract_: bool,
    pub trace: String,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_heap: u64,
    pub max_paths: u64,
    pub max_secs: f64,
    pub max_viol: usize,
}

pub struct Exec {
    pub m: &'static Module,
    pub x: Ctx,
    pub z: Z3,
    pub hooks: Rc<Vec<Option<Hook>>>,
    pub lim: Limits,
    pub t0: std::time::Instant,
    pub paths: u64,
    pub panics: u64,
    pub endless: u64,
    pub infeasible: u64,
    pub errors: Vec<String>,
    pub unknowns: u64,
    /// conditions over one byte that were ruled out from its remaining values; the solver confirms them (`confirm`)
    pub refuted: HashSet<(E, bool, u32, [u64; 4])>,
    pub confirmed: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub asserts_const: u64,
    pub asserts_table: u64,
    pub branches: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub steps: u64,
    pub viols: Vec<Violation>,
    pub viol_count: BTreeMap<String, u64>,
    pub used: HashSet<u32>,
    pub fcache: Vec<Option<&'static Func>>,
    pub models: Vec<Vec<(u8, u64)>>,
    /// inputs of paths that could not be followed to their end
    pub stuck: Vec<Vec<(u8, u64)>>,
    pub covers: HashSet<String>,
    pub cover_names: Vec<String>,
    pub cover_idx: HashMap<String, u32>,
    pub qcache: HashMap<(Vec<E>, E), Option<Vec<(u32, u64)>>>,
    pub seed: u64,
    pub live: HashMap<(u32, u32), Rc<Vec<u32>>>,
    pub over: bool,
    pub dbg: bool,
    pub tokens: HashMap<(E, u32), Vec<E>>,
    /// decimals computed from others: may carry superfluous zeros (value: multiple of 2^-k)
    pub loose: HashMap<E, u32>,
    pub dyadic_frac: HashMap<Vec<E>, u32>,
    pub invars: HashMap<(usize, u8, u64, u64, Option<[u64; 4]>, u8), E>,
    pub texts: HashMap<Vec<E>, E>,
    pub queries_solver_names: u64,
    pub notes: Vec<String>,
    pub panic_hist: BTreeMap<String, u64>,
    pub asserted_ids: BTreeMap<String, u64>,
    pub sites: HashMap<(u32, u32), u64>,
}

fn b2v(b: bool) -> Val {
    Val::I(b as u64)
}

type R<T> = Result<T, HookRes>;

impl Exec {
    pub fn func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.fcache[id as usize] {
            return Some(f);
        }
        let f = self.m.func(id)?;
        self.fcache[id as usize] = Some(f);
        Some(f)
    }
    // ---------- values ----------
    #[inline]
    pub fn get(&mut self, st: &State, o: Opd) -> Val {
        match o {
            Opd::R(r) => st.cur.regs[r as usize].clone(),
            Opd::I(v) => Val::I(v),
            Opd::K(k) => {
                let f = st.cur.f;
                self.kval(&f.kpool[k as usize])
            }
        }
    }
    fn kval(&mut self, k: &CVal) -> Val {
        match k {
            CVal::I(v) => Val::I(*v),
            CVal::W(v, w) => Val::S(self.x.konst(*v, *w)),
            CVal::Agg(v) => Val::A(Rc::new(v.iter().map(|x| self.kval(x)).collect())),
        }
    }
    pub fn e(&mut self, v: &Val, w: u8) -> E {
        match v {
            Val::I(i) => self.x.k(*i, w),
            Val::S(e) => {
                debug_assert_eq!(self.x.w(*e), w, "width");
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn v(&self, e: E) -> Val {
        if self.x.w(e) <= 64 {
            if let Some(c) = self.x.c64(e) {
                return Val::I(c);
            }
        }
        Val::S(e)
    }
    // ---------- feasibility ----------
    pub fn dom_of(&self, st: &State, v: u32) -> [u64; 4] {
        match st.dom.get(v as usize) {
            Some(d) => *d,
            None => base_dom(&self.x.vars[v as usize]),
        }
    }
    fn in_multi(&self, st: &State, v: u32) -> bool {
        st.cons.iter().any(|c| self.x.sets[self.x.sup[*c as usize] as usize].binary_search(&v).is_ok())
    }
    fn eval_bool(&self, st: &State, c: E) -> bool {
        let mut memo = Default::default();
        self.x.eval(c, &st.model, &mut memo) == 1
    }
    /// Some(model) when PC and c is satisfiable
    pub fn feasible(&mut self, st: &State, c: E) -> Option<Rc<Vec<u64>>> {
        if let Some(v) = self.x.cval(c) {
            return if v == 1 { Some(st.model.clone()) } else { None };
        }
        if self.eval_bool(st, c) {
            return Some(st.model.clone());
        }
        self.solve(st, c)
    }
    fn solve(&mut self, st: &State, c: E) -> Option<Rc<Vec<u64>>> {
        if let Some(v) = self.x.single(c) {
            let t = self.x.tt(c);
            let d = self.dom_of(st, v);
            let mut cand = [0u64; 4];
            let mut any = false;
            for i in 0..4 {
                cand[i] = t[i] & d[i];
                any |= cand[i] != 0;
            }
            if !any {
                self.refuted.insert((c, false, v, d));
                return None;
            }
            if !self.in_multi(st, v) {
                let mut m = (*st.model).clone();
                set_model(&mut m, v, lowest(&cand), &self.x);
                return Some(Rc::new(m));
            }
        }
        // slice
        let (cs, vars) = self.slice(st, c);
        let mut key: Vec<E> = cs.clone();
        key.sort();
        // domains take part in the key through membership expressions
        for v in &vars {
            let vi = &self.x.vars[*v as usize];
            if vi.w <= 8 {
                let d = self.dom_of(st, *v);
                if d != base_dom(vi) {
                    for q in d {
                        key.push((q >> 32) as u32);
                        key.push(q as u32);
                    }
                    key.push(*v);
                }
            }
        }
        let kk = (key, c);
        if let Some(r) = self.qcache.get(&kk) {
            return r.as_ref().map(|l| {
                let mut m = (*st.model).clone();
                for (v, x) in l {
                    set_model(&mut m, *v, *x, &self.x);
                }
                Rc::new(m)
            });
        }
        let mut q = cs;
        q.push(c);
        let doms: HashMap<u32, [u64; 4]> = vars.iter().map(|v| (*v, self.dom_of(st, *v))).collect();
        let t0 = std::time::Instant::now();
        let (r, l) = self.z.check(&self.x, &q, &vars, &|v| doms.get(&v).copied());
        if self.dbg && t0.elapsed().as_millis() > 500 {
            eprintln!("slow query {:.1}s at {}: {}", t0.elapsed().as_secs_f64(), self.here(st), self.x.show(c, 14));
        }
        match r {
            Res::Unsat => {
                self.qcache.insert(kk, None);
                None
            }
            Res::Sat => {
                self.qcache.insert(kk, Some(l.clone()));
                let mut m = (*st.model).clone();
                for (v, x) in l {
                    set_model(&mut m, v, x, &self.x);
                }
                Some(Rc::new(m))
            }
            Res::Unknown => {
                self.unknowns += 1;
                Some(st.model.clone())
            }
        }
    }
    fn slice(&mut self, st: &State, c: E) -> (Vec<E>, Vec<u32>) {
        let mut vs: HashSet<u32> = self.x.support(c).iter().copied().collect();
        let mut used = vec![false; st.cons.len()];
        let mut cs = vec![];
        loop {
            let mut ch = false;
            for (i, k) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.x.support(*k);
                if s.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    cs.push(*k);
                    for v in s.iter() {
                        ch |= vs.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<u32> = vs.into_iter().collect();
        v.sort();
        (cs, v)
    }
    pub fn add_cons(&mut self, st: &mut State, c: E) {
        let n = self.x.n(c);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And {
            self.add_cons(st, n.a);
            self.add_cons(st, n.b);
            return;
        }
        if let Some(v) = self.x.single(c) {
            let t = self.x.tt(c);
            self.grow_dom(st, v);
            let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
            for i in 0..4 {
                d[i] &= t[i];
            }
            return;
        }
        Rc::make_mut(&mut st.cons).push(c);
    }
    fn grow_dom(&mut self, st: &mut State, v: u32) {
        if st.dom.len() <= v as usize {
            let d = Rc::make_mut(&mut st.dom);
            while d.len() <= v as usize {
                d.push(base_dom(&self.x.vars[d.len()]));
            }
        }
    }
    /// quick static decision from domains
    pub fn quick(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.x.cval(c) {
            return Some(v == 1);
        }
        if let Some(k) = st.known.get(&c) {
            return Some(*k == 1);
        }
        if let Some(v) = self.x.single(c) {
            let t = self.x.tt(c);
            let d = self.dom_of(st, v);
            let mut yes = false;
            let mut no = false;
            for i in 0..4 {
                yes |= d[i] & t[i] != 0;
                no |= d[i] & !t[i] != 0;
            }
            if yes != no {
                self.refuted.insert((c, yes, v, d));
                return Some(yes);
            }
        }
        None
    }
    /// the solver's word on everything that was ruled out without asking it
    pub fn confirm(&mut self) {
        let mut v: Vec<_> = std::mem::take(&mut self.refuted).into_iter().filter(|r| !has_uf(&self.x, r.0)).collect();
        v.sort();
        for part in v.chunks(200) {
            match self.z.refute(&self.x, part) {
                Res::Unsat => self.confirmed += part.len() as u64,
                Res::Sat => self.errors.push("the solver disagrees with a table".into()),
                Res::Unknown => self.errors.push("solver gave up on a table".into()),
            }
        }
    }
    /// (feasible true, feasible false)
    fn both(&mut self, st: &State, c: E) -> (Option<Rc<Vec<u64>>>, Option<Rc<Vec<u64>>>) {
        self.branches += 1;
        let nc = self.x.not(c);
        if self.eval_bool(st, c) {
            let f = self.feasible(st, nc);
            (Some(st.model.clone()), f)
        } else {
            let t = self.feasible(st, c);
            (t, Some(st.model.clone()))
        }
    }
    /// decide a condition, or fork: Err(Again) with both refined states
    pub fn cond(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.quick(st, c) {
            return Ok(b);
        }
        let (t, f) = self.both(st, c);
        let nc = self.x.not(c);
        match (t, f) {
            (Some(_), None) => {
                Rc::make_mut(&mut st.known).insert(c, 1);
                Ok(true)
            }
            (None, Some(_)) => {
                Rc::make_mut(&mut st.known).insert(c, 0);
                Ok(false)
            }
            (None, None) => Err(HookRes::End(End::Infeasible)),
            (Some(mt), Some(mf)) => {
                self.forks += 1;
                if self.dbg {
                    let n = self.sites.entry((st.cur.f.id, st.cur.pc)).or_insert(0);
                    *n += 1;
                    if *n == 1 {
                        eprintln!("cond at {}: {} ins {:?}", self.here(st), self.show(c, 5), st.cur.f.ins[st.cur.pc as usize]);
                    }
                }
                let mut a = st.clone();
                a.model = mt;
                self.add_cons(&mut a, c);
                Rc::make_mut(&mut a.known).insert(c, 1);
                let mut b = st.clone();
                b.model = mf;
                self.add_cons(&mut b, nc);
                Rc::make_mut(&mut b.known).insert(c, 0);
                Err(HookRes::Again(vec![a, b]))
            }
        }
    }
    /// distinct values that a single-variable expression takes over the domain
    fn dom_values(&mut self, st: &State, e: E) -> Option<Vec<(u64, [u64; 4])>> {
        let v = self.x.single(e)?;
        if self.x.w(e) > 64 {
            return None;
        }
        let l = self.x.lane(e);
        let d = self.dom_of(st, v);
        let mut m: Vec<(u64, [u64; 4])> = vec![];
        let mut idx: FxMap<u64, usize> = Default::default();
        for i in 0..256usize {
            if d[i >> 6] >> (i & 63) & 1 == 1 {
                let k = *idx.entry(l[i]).or_insert_with(|| {
                    m.push((l[i], [0; 4]));
                    m.len() - 1
                });
                m[k].1[i >> 6] |= 1 << (i & 63);
            }
        }
        Some(m)
    }
    /// make a symbolic value concrete, forking over its feasible values
    pub fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let e = match v {
            Val::I(i) => return Ok(*i),
            Val::S(e) => *e,
            _ => panic!("conc of aggregate"),
        };
        self.conc_e(st, e)
    }
    pub fn conc_e(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(c) = self.x.c64(e) {
            return Ok(c);
        }
        if self.dbg {
            let n = self.sites.entry((st.cur.f.id, st.cur.pc | 1 << 30)).or_insert(0);
            *n += 1;
            if *n == 1 {
                eprintln!("conc at {}: {} ins {:?}", self.here(st), self.show(e, 3), st.cur.f.ins[st.cur.pc as usize]);
            }
        }
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let w = self.x.w(e);
        if let Some(vals) = self.dom_values(st, e) {
            if vals.len() == 1 {
                Rc::make_mut(&mut st.known).insert(e, vals[0].0);
                return Ok(vals[0].0);
            }
            if vals.len() > 64 {
                return Err(HookRes::End(End::Error(format!("concretisation over {} values at {}", vals.len(), self.here(st)))));
            }
            let mut out = vec![];
            for (x, _) in vals {
                let k = self.x.k(x, w);
                let c = self.x.eq(e, k);
                if let Some(m) = self.feasible(st, c) {
                    let mut s = st.clone();
                    s.model = m;
                    self.add_cons(&mut s, c);
                    Rc::make_mut(&mut s.known).insert(e, x);
                    out.push(s);
                }
            }
            self.forks += out.len() as u64;
            return Err(HookRes::Again(out));
        }
        // enumerate with the solver
        let mut out = vec![];
        let mut base = st.clone();
        for i in 0..65 {
            let mut memo = Default::default();
            let x = self.x.eval(e, &base.model, &mut memo) as u64;
            let k = self.x.k(x, w);
            let c = self.x.eq(e, k);
            let nc = self.x.not(c);
            if i == 64 {
                return Err(HookRes::End(End::Error(format!("too many values to concretise at {} ({})", self.here(st), self.show(e, 3)))));
            }
            let mut s = base.clone();
            self.add_cons(&mut s, c);
            Rc::make_mut(&mut s.known).insert(e, x);
            out.push(s);
            match self.feasible(&base, nc) {
                Some(m) => {
                    base.model = m;
                    self.add_cons(&mut base, nc);
                }
                None => break,
            }
        }
        if out.len() == 1 {
            let k = *out[0].known.get(&e).unwrap();
            Rc::make_mut(&mut st.known).insert(e, k);
            return Ok(k);
        }
        self.forks += out.len() as u64;
        // the copies carry exclusion constraints of earlier values: harmless
        Err(HookRes::Again(out))
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.x.n(e);
        match n.op {
            Op::Const => format!("{:#x}", self.x.consts[n.a as usize]),
            Op::Var => format!("v{}", n.a),
            _ if d == 0 => "..".into(),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::Not | Op::ZExt | Op::SExt | Op::Lut | Op::Extract | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::Round15 | Op::FormSel => format!("{:?}{}({}{})", n.op, n.w, self.show(n.a, d - 1), if n.op == Op::Extract { format!(",{}", n.b) } else { "".into() }),
            Op::Dec => format!("dec{}", n.a),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
    pub fn here(&self, st: &State) -> String {
        let mut s = short(&st.cur.f.name);
        for f in st.stack.iter().rev().take(6) {
            s.push_str(" < ");
            s.push_str(&short(&f.f.name));
        }
        s
    }
    pub fn inputs_of(&self, st: &State) -> Vec<(u8, u64)> {
        let mut memo = Default::default();
        st.inputs
            .iter()
            .map(|(k, v)| {
                (
                    *k,
                    match v {
                        Val::I(i) => *i,
                        Val::S(e) => self.x.eval(*e, &st.model, &mut memo) as u64,
                        _ => 0,
                    },
                )
            })
            .collect()
    }
    /// another assignment that satisfies the path condition, with as many inputs changed as a greedy pass finds
    fn other_model(&self, st: &State) -> Option<Vec<u64>> {
        let mut m = (*st.model).clone();
        for v in m.len()..self.x.vars.len() {
            m.push(self.x.vars[v].lo);
        }
        let holds = |m: &[u64]| {
            let mut memo = Default::default();
            st.cons.iter().all(|c| self.x.eval(*c, m, &mut memo) & 1 == 1)
        };
        if st.cons.len() > 400 || !holds(&m) {
            return None;
        }
        let mut changed = false;
        for v in 0..m.len().min(120) {
            let d = self.dom_of(st, v as u32);
            let Some(hi) = (0..256u64).rev().find(|b| d[(b >> 6) as usize] >> (b & 63) & 1 == 1) else { continue };
            if self.x.vars[v].w > 8 || m[v] == hi {
                continue;
            }
            let old = std::mem::replace(&mut m[v], hi);
            if holds(&m) {
                changed = true;
            } else {
                m[v] = old;
            }
        }
        changed.then_some(m)
    }
    pub fn violation(&mut self, st: &State, id: String, model: Rc<Vec<u64>>, abs: bool) {
        *self.viol_count.entry(id.clone()).or_insert(0) += 1;
        let n = self.viols.iter().filter(|v| v.id == id).count();
        if n >= self.lim.max_viol {
            return;
        }
        let mut s2 = st.clone();
        s2.model = model;
        let inputs = self.inputs_of(&s2);
        let trace = self.here(st);
        self.viols.push(Violation { id, inputs, abstract_: abs, trace });
    }
    pub fn assert(&mut self, st: &mut State, c: E, id: &str) -> R<()> {
        self.asserts += 1;
        *self.asserted_ids.entry(id.to_string()).or_insert(0) += 1;
        if let Some(v) = self.x.cval(c) {
            self.asserts_const += 1;
            if v == 0 {
                let abs = st.abs || st.cons.iter().any(|k| has_uf(&self.x, *k));
                self.violation(st, id.to_string(), st.model.clone(), abs);
                return Err(HookRes::End(End::Infeasible));
            }
            return Ok(());
        }
        let nc = self.x.not(c);
        let q0 = self.z.queries;
        let u0 = self.unknowns;
        let r = self.feasible(st, nc);
        if self.z.queries > q0 {
            self.asserts_solver += 1;
        } else {
            self.asserts_table += 1;
        }
        if self.unknowns > u0 {
            return Err(HookRes::End(End::Error(format!("solver gave up on assertion {}", id))));
        }
        if let Some(m) = r {
            let abs = st.abs || has_uf(&self.x, c) || st.cons.iter().any(|k| has_uf(&self.x, *k));
            self.violation(st, id.to_string(), m, abs);
            match self.feasible(st, c) {
                Some(m) => {
                    st.model = m;
                    self.add_cons(st, c);
                }
                None => return Err(HookRes::End(End::Infeasible)),
            }
        }
        Ok(())
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        match self.feasible(st, c) {
            Some(m) => {
                st.model = m;
                self.add_cons(st, c);
                Ok(())
            }
            None => Err(HookRes::End(End::Infeasible)),
        }
    }
    pub fn fresh(&mut self, st: &mut State, w: u8, lo: u64, hi: u64, set: Option<[u64; 4]>, kind: u8) -> E {
        let e = self.x.var(w, lo, hi, set, kind);
        let v = self.x.n(e).a;
        let m = Rc::make_mut(&mut st.model);
        while m.len() < v as usize {
            let i = m.len();
            let vi = &self.x.vars[i];
            m.push(vi.lo);
        }
        let init = match set {
            Some(s) => lowest(&s),
            None => lo,
        };
        if m.len() == v as usize {
            m.push(init);
        }
        e
    }
    /// the variable of the next input of this path (shared between paths with the same declaration)
    pub fn fresh_in(&mut self, st: &mut State, w: u8, lo: u64, hi: u64, set: Option<[u64; 4]>, kind: u8) -> E {
        let key = (st.inputs.len(), w, lo, hi, set, kind);
        let e = match self.invars.get(&key) {
            Some(e) => *e,
            None => {
                let e = self.x.var(w, lo, hi, set, kind);
                self.invars.insert(key, e);
                e
            }
        };
        let v = self.x.n(e).a as usize;
        let m = Rc::make_mut(&mut st.model);
        while m.len() <= v {
            let vi = &self.x.vars[m.len()];
            m.push(vi.set.map_or(vi.lo, |s| lowest(&s)));
        }
        Rc::make_mut(&mut st.inputs).push((kind, Val::S(e)));
        e
    }
    // ---------- memory ----------
    pub fn load_e(&mut self, st: &State, a: u64, n: usize) -> Result<E, MemErr> {
        let mut acc: Option<E> = None;
        for i in 0..n {
            let (b, s) = st.mem.byte(a + i as u64).ok_or(MemErr(a))?;
            let e = if s != 0 { s } else { self.x.k(b as u64, 8) };
            acc = Some(match acc {
                None => e,
                Some(l) => self.x.concat(e, l),
            });
        }
        Ok(acc.unwrap())
    }
    pub fn load(&mut self, st: &State, a: u64, w: u8) -> Result<Val, MemErr> {
        let n = ((w as usize) + 7) / 8;
        match st.mem.read(a, n) {
            Ok(v) => {
                if w <= 64 {
                    Ok(Val::I(v as u64 & mask(w)))
                } else {
                    Ok(Val::S(self.x.konst(v, w)))
                }
            }
            Err(false) => Err(MemErr(a)),
            Err(true) => {
                let e = self.load_e(st, a, n)?;
                let e = if (w as usize) < n * 8 { self.x.extract(e, 0, w) } else { e };
                Ok(self.v(e))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, a: u64, w: u8, v: &Val) -> Result<(), MemErr> {
        let n = ((w as usize) + 7) / 8;
        if a < RW_BASE {
            return Err(MemErr(a));
        }
        match v {
            Val::I(i) => st.mem.write(a, n, (*i & mask(w)) as u128),
            Val::S(e) => {
                let mut e = *e;
                if (w as usize) < n * 8 {
                    e = self.x.zext(e, (n * 8) as u8);
                }
                if let Some(c) = self.x.cval(e) {
                    return st.mem.write(a, n, c);
                }
                for i in 0..n {
                    let b = self.x.extract(e, (i * 8) as u8, 8);
                    match self.x.c64(b) {
                        Some(c) => st.mem.write(a + i as u64, 1, c as u128)?,
                        None => st.mem.write_sym(a + i as u64, b)?,
                    }
                }
                Ok(())
            }
            Val::A(_) => panic!(),
        }
    }
    fn load_t(&mut self, st: &State, a: u64, t: &Ty) -> Result<Val, MemErr> {
        if t.is_scalar() {
            return self.load(st, a, t.bits() as u8);
        }
        if let Ty::Vec(n, e) = t {
            if **e == Ty::Int(1) {
                let v = self.load(st, a, *n as u8)?;
                let ev = self.e(&v, *n as u8);
                let mut r = vec![];
                for i in 0..*n {
                    let x = self.x.extract(ev, i as u8, 1);
                    r.push(self.v(x));
                }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        let (offs, _) = t.layout();
        let mut r = vec![];
        for i in 0..t.nfields() {
            r.push(self.load_t(st, a + offs[i], t.field(i))?);
        }
        Ok(Val::A(Rc::new(r)))
    }
    fn store_t(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> Result<(), MemErr> {
        if t.is_scalar() {
            return self.store(st, a, t.bits() as u8, v);
        }
        let vs = match v {
            Val::A(x) => x.clone(),
            _ => panic!("store_t"),
        };
        if let Ty::Vec(n, e) = t {
            if **e == Ty::Int(1) {
                let mut acc = self.e(&vs[0], 1);
                for i in 1..*n as usize {
                    let b = self.e(&vs[i], 1);
                    acc = self.x.concat(b, acc);
                }
                let vv = self.v(acc);
                return self.store(st, a, *n as u8, &vv);
            }
        }
        let (offs, _) = t.layout();
        for i in 0..t.nfields() {
            self.store_t(st, a + offs[i], t.field(i), &vs[i])?;
        }
        Ok(())
    }
    /// load through a symbolic address
    pub fn load_sym(&mut self, st: &mut State, ae: E, w: u8) -> R<Val> {
        if let Some(k) = st.known.get(&ae).copied() {
            return self.load(st, k, w).map_err(|e| self.segv(st, e));
        }
        if w <= 64 {
            if let Some(v) = self.x.single(ae) {
                let vals = self.dom_values(st, ae).unwrap();
                if vals.len() == 1 {
                    let r = self.load(st, vals[0].0, w).map_err(|e| self.segv(st, e));
                    return r;
                }
                let mut tab = vec![0u64; 256];
                let mut ok = true;
                for (a, set) in &vals {
                    match self.load(st, *a, w) {
                        Ok(Val::I(x)) => {
                            for i in 0..256usize {
                                if set[i >> 6] >> (i & 63) & 1 == 1 {
                                    tab[i] = x;
                                }
                            }
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    let ve = self.x.var_e[v as usize];
                    let vw = self.x.w(ve);
                    tab.truncate(1 << vw);
                    // make the don't-care entries equal to some care entry
                    let d = self.dom_of(st, v);
                    let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                    let first = (0..tab.len()).find(|i| has(*i)).map(|i| tab[i]).unwrap_or(0);
                    let mut last = first;
                    for i in 0..tab.len() {
                        if has(i) {
                            last = tab[i];
                        } else {
                            tab[i] = last;
                        }
                    }
                    let e = self.x.lut(ve, w, tab);
                    return Ok(self.v(e));
                }
            } else {
                let (lo, hi) = self.x.iv[ae as usize];
                if hi - lo <= 8192 {
                    let mut tab = vec![];
                    let mut ok = true;
                    let kz = self.x.k(lo, 64);
                    let off = self.x.bin(Op::Sub, ae, kz);
                    // alignment of the offset
                    let z = self.x.kz(off);
                    let step = 1u64 << (!z).trailing_zeros().min(12);
                    let mut a = lo;
                    while a <= hi {
                        match self.load(st, a, w) {
                            Ok(Val::I(x)) => tab.push(x),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                        a += step;
                    }
                    if ok {
                        let sh = self.x.k(step.trailing_zeros() as u64, 64);
                        let idx = self.x.bin(Op::LShr, off, sh);
                        let e = self.x.lut(idx, w, tab);
                        return Ok(self.v(e));
                    }
                }
            }
        }
        let a = self.conc_e(st, ae)?;
        self.load(st, a, w).map_err(|e| self.segv(st, e))
    }
    pub fn segv(&self, st: &State, e: MemErr) -> HookRes {
        HookRes::End(End::Error(format!("bad memory access {:#x} at {}", e.0, self.here(st))))
    }
    // ---------- operations ----------
    pub fn bin(&mut self, op: Op, w: u8, a: Val, b: Val) -> Val {
        if w <= 64 {
            if let (Val::I(x), Val::I(y)) = (&a, &b) {
                if let Some(r) = fold64(op, w, *x, *y) {
                    return Val::I(r);
                }
                return Val::I(0); // division by zero: undefined, guarded by the program
            }
        }
        let (ea, eb) = (self.e(&a, w), self.e(&b, w));
        let e = self.x.bin(op, ea, eb);
        self.v(e)
    }
    fn icmp(&mut self, p: Pred, w: u8, a: Val, b: Val) -> Val {
        if w <= 64 {
            if let (Val::I(x), Val::I(y)) = (&a, &b) {
                let (x, y) = (*x, *y);
                return b2v(match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => sx(x, w) < sx(y, w),
                    Pred::Sle => sx(x, w) <= sx(y, w),
                    Pred::Sgt => sx(x, w) > sx(y, w),
                    Pred::Sge => sx(x, w) >= sx(y, w),
                });
            }
        }
        let (ea, eb) = (self.e(&a, w), self.e(&b, w));
        let x = &mut self.x;
        let e = match p {
            Pred::Eq => x.eq(ea, eb),
            Pred::Ne => x.ne(ea, eb),
            Pred::Ult => x.cmp(Op::Ult, ea, eb),
            Pred::Ule => x.cmp(Op::Ule, ea, eb),
            Pred::Ugt => x.cmp(Op::Ult, eb, ea),
            Pred::Uge => x.cmp(Op::Ule, eb, ea),
            Pred::Slt => x.cmp(Op::Slt, ea, eb),
            Pred::Sle => x.cmp(Op::Sle, ea, eb),
            Pred::Sgt => x.cmp(Op::Slt, eb, ea),
            Pred::Sge => x.cmp(Op::Sle, eb, ea),
        };
        self.v(e)
    }
    pub fn fcmp(&mut self, p: u8, w: u8, a: Val, b: Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (&a, &b) {
            let (x, y) = if w == 64 { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) };
            let code = if x.is_nan() || y.is_nan() {
                8
            } else if x == y {
                1
            } else if x > y {
                2
            } else {
                4
            };
            return b2v(p & code != 0);
        }
        if let Some((eq, lt)) = self.dec_cmp(&a, &b) {
            // exact decimal comparison (both operands are decimals of at most 15 digits)
            let nl = self.x.not(lt);
            let ne = self.x.not(eq);
            let gt = self.x.and1(nl, ne);
            let mut r = self.x.fals();
            for (bit, e) in [(1, eq), (2, gt), (4, lt)] {
                if p & bit != 0 {
                    r = self.x.or1(r, e);
                }
            }
            return self.v(r);
        }
        let (ea, eb) = (self.e(&a, w), self.e(&b, w));
        let nan = |s: &mut Self, e: E| -> E {
            let n = s.x.n(e);
            if n.op == Op::Dec {
                return s.x.fals();
            }
            if n.op == Op::Const {
                let d = if w == 64 { f64::from_bits(s.x.consts[n.a as usize] as u64).is_nan() } else { f32::from_bits(s.x.consts[n.a as usize] as u32).is_nan() };
                return s.x.k(d as u64, 1);
            }
            let q = s.x.fbin(Op::FEq, e, e);
            s.x.not(q)
        };
        let mut r = self.x.fals();
        if p & 8 != 0 {
            let (n1, n2) = (nan(self, ea), nan(self, eb));
            r = self.x.or1(n1, n2);
        }
        if p & 7 == 7 {
            let (n1, n2) = (nan(self, ea), nan(self, eb));
            let u = self.x.or1(n1, n2);
            let o = self.x.not(u);
            let z = self.x.or1(r, o);
            return self.v(z);
        }
        let mut parts = vec![];
        match p & 7 {
            3 => parts.push(self.fle(eb, ea)),
            5 => parts.push(self.fle(ea, eb)),
            q => {
                if q & 1 != 0 {
                    parts.push(self.feq(ea, eb));
                }
                if q & 2 != 0 {
                    parts.push(self.x.fbin(Op::FLt, eb, ea));
                }
                if q & 4 != 0 {
                    parts.push(self.x.fbin(Op::FLt, ea, eb));
                }
            }
        }
        for q in parts {
            r = self.x.or1(r, q);
        }
        self.v(r)
    }
    fn fle(&mut self, a: E, b: E) -> E {
        self.x.fbin(Op::FLe, a, b)
    }
    fn feq(&mut self, a: E, b: E) -> E {
        if a == b && self.x.n(a).op == Op::Dec {
            return self.x.tru();
        }
        // x - y == 0  <=>  x == y (finite values)
        for (p, q) in [(a, b), (b, a)] {
            let n = self.x.n(p);
            if n.op == Op::FSub && self.x.cval(q) == Some(0) {
                let (va, vb) = (self.v(n.a), self.v(n.b));
                if let Some((eq, _)) = self.dec_cmp(&va, &vb) {
                    return eq;
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.x.fbin(Op::FEq, a, b)
    }
    fn cast(&mut self, k: Cast, fw: u8, tw: u8, a: Val) -> Val {
        if let Val::I(x) = a {
            if tw <= 64 {
                return Val::I(match k {
                    Cast::Trunc => x & mask(tw),
                    Cast::Zext | Cast::Bit => x,
                    Cast::Sext => sx(x, fw) as u64 & mask(tw),
                    Cast::FpToUi | Cast::FpToSi => {
                        let d = if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        if k == Cast::FpToUi {
                            d as u64 & mask(tw)
                        } else {
                            d as i64 as u64 & mask(tw)
                        }
                    }
                    Cast::UiToFp => {
                        if tw == 64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    Cast::SiToFp => {
                        if tw == 64 {
                            (sx(x, fw) as f64).to_bits()
                        } else {
                            (sx(x, fw) as f32).to_bits() as u64
                        }
                    }
                    Cast::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                    Cast::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                });
            }
        }
        let e = self.e(&a, fw);
        let r = match k {
            Cast::Trunc => self.x.extract(e, 0, tw),
            Cast::Zext => self.x.zext(e, tw),
            Cast::Sext => self.x.sext(e, tw),
            Cast::Bit => e,
            Cast::FpToUi => self.x.un(Op::FToU, tw, e),
            Cast::FpToSi => self.x.un(Op::FToS, tw, e),
            Cast::UiToFp => self.x.un(Op::UToF, tw, e),
            Cast::SiToFp => self.x.un(Op::SToF, tw, e),
            Cast::FpExt => self.x.un(Op::FExt, 64, e),
            Cast::FpTrunc => self.x.un(Op::FRound, 32, e),
        };
        self.v(r)
    }
    pub fn fbin(&mut self, op: u8, w: u8, a: Val, b: Val) -> Val {
        let o = [Op::FAdd, Op::FSub, Op::FMul, Op::FDiv][op.min(3) as usize];
        if let (Val::I(x), Val::I(y)) = (&a, &b) {
            if op == 4 {
                return Val::I(if w == 64 { (f64::from_bits(*x) % f64::from_bits(*y)).to_bits() } else { (f32::from_bits(*x as u32) % f32::from_bits(*y as u32)).to_bits() as u64 });
            }
            return Val::I(ffold(o, w, *x, *y));
        }
        let (mut ea, mut eb) = (self.e(&a, w), self.e(&b, w));
        // identities valid for every non-NaN value up to the sign of zero are NOT applied;
        // only bit-exact ones: x*1, x/1, x-0
        if w == 64 {
            let one = 1.0f64.to_bits() as u128;
            if (op == 2 || op == 3) && self.x.cval(eb) == Some(one) {
                return a;
            }
            if op == 2 && self.x.cval(ea) == Some(one) {
                return b;
            }
            if op == 1 && self.x.cval(eb) == Some(0) {
                return a;
            }
            if op == 1 {
                if let Some(r) = self.dec_sub_frac(ea, eb) {
                    return self.v(r);
                }
            }
        }
        if (op == 0 || op == 2) && ea > eb {
            std::mem::swap(&mut ea, &mut eb);
        }
        let e = self.x.fbin(o, ea, eb);
        self.v(e)
    }
    pub fn select(&mut self, c: E, a: Val, b: Val, w: u8) -> Val {
        let (ea, eb) = (self.e(&a, w), self.e(&b, w));
        let e = self.x.ite(c, ea, eb);
        self.v(e)
    }
    fn take_edge(&mut self, st: &mut State, e: &'static Edge) {
        if !e.moves.is_empty() {
            if e.conflict {
                let vals: Vec<Val> = e.moves.iter().map(|(_, o)| self.get(st, *o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) {
                    st.cur.regs[*d as usize] = v;
                }
            } else {
                for (d, o) in e.moves.iter() {
                    let v = self.get(st, *o);
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.pc = e.pc;
    }
    pub fn enter(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>, dst: u32, ret_edge: Option<&'static Edge>) {
        self.used.insert(f.id);
        let mut regs = args;
        regs.truncate(f.nargs as usize);
        regs.resize(f.nregs as usize, Val::I(0));
        let fr = Frame { f, regs, pc: 0, sp: st.mem.sp, dst, ret_edge, allocas: vec![] };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> bool {
        if st.merge > 0 {
            let a = st.cur.sp;
            let n = st.mem.sp - a;
            if n > 0 && n < 1 << 20 {
                // dead stack content does not matter: make it canonical
                let _ = st.mem.fill(a, 0, n);
            }
        }
        st.mem.sp = st.cur.sp;
        let (dst, edge) = (st.cur.dst, st.cur.ret_edge);
        match st.stack.pop() {
            None => return false,
            Some(fr) => {
                let fr = match Rc::try_unwrap(fr) {
                    Ok(f) => f,
                    Err(r) => (*r).clone(),
                };
                st.cur = fr;
            }
        }
        if st.stack.is_empty() && st.cur.pc == u32::MAX {
            return false;
        }
        if dst != NONE {
            if let Some(v) = v {
                st.cur.regs[dst as usize] = v;
            }
        }
        match edge {
            Some(e) => self.take_edge(st, e),
            None => st.cur.pc += 1,
        }
        true
    }
    /// deliver a call's result without entering a frame
    pub fn ret_here(&mut self, st: &mut State, ci: &'static CallInfo, v: Val) {
        if ci.dst != NONE {
            st.cur.regs[ci.dst as usize] = v;
        }
        match &ci.normal {
            Some(e) => self.take_edge(st, e),
            None => st.cur.pc += 1,
        }
    }
    pub fn finish(&mut self, st: &State, end: End) {
        match end {
            End::Infeasible => {
                self.infeasible += 1;
                return;
            }
            End::Error(s) => {
                if self.errors.len() < 20 {
                    self.errors.push(s);
                }
                if self.stuck.len() < 24 {
                    self.stuck.push(self.inputs_of(st));
                    if let Some(m) = self.other_model(st) {
                        let mut s2 = st.clone();
                        s2.model = Rc::new(m);
                        self.stuck.push(self.inputs_of(&s2));
                    }
                }
                self.paths += 1;
                return;
            }
            End::Panic(p) => {
                self.panics += 1;
                *self.panic_hist.entry(p.clone()).or_insert(0) += 1;
                if !st.expect_panic {
                    let m = st.model.clone();
                    let abs = st.abs || st.cons.iter().any(|k| has_uf(&self.x, *k));
                    self.violation(st, format!("panic: {}", p), m, abs);
                }
            }
            End::Endless(p) => {
                self.endless += 1;
                let m = st.model.clone();
                let abs = st.abs || st.cons.iter().any(|k| has_uf(&self.x, *k));
                self.violation(st, format!("endless: {}", p), m, abs);
                if self.endless >= 2 {
                    self.over = true;
                }
            }
            End::Exit(c) => {
                if self.errors.len() < 20 {
                    self.errors.push(format!("exit({}) at {}", c, self.here(st)));
                }
            }
            End::Done => {}
        }
        self.paths += 1;
        for c in st.covers.iter() {
            let n = self.cover_names[*c as usize].clone();
            self.covers.insert(n);
        }
        if self.models.len() < 64 || (self.paths % 17 == 0 && self.models.len() < 256) {
            if !st.abs && !st.cons.iter().any(|k| has_uf(&self.x, *k)) {
                self.models.push(self.inputs_of(st));
            }
        }
    }
    pub fn explore(&mut self, st: State, stop: Stop) -> Vec<State> {
        let mut out = vec![];
        let mut work = vec![st];
        while let Some(s) = work.pop() {
            if self.over {
                self.over = true;
                return out;
            }
            if self.paths >= self.lim.max_paths || self.t0.elapsed().as_secs_f64() > self.lim.max_secs {
                self.over = true;
                return out;
            }
            self.run(s, stop, &mut out, &mut work);
        }
        out
    }
    #[inline]
    fn at_stop(&self, st: &State, stop: Stop) -> bool {
        match stop {
            Stop::Block(d, b) => st.stack.len() == d && st.cur.pc == st.cur.f.bstart[b as usize],
            _ => false,
        }
    }
    /// fork over conditioned edges; merge afterwards when asked for
    fn fork_edges(&mut self, st: State, alts: Vec<(E, Rc<Vec<u64>>, &'static Edge)>, stop: Stop, out: &mut Vec<State>, work: &mut Vec<State>) {
        self.forks += alts.len() as u64 - 1;
        let depth = st.stack.len();
        if self.dbg {
            let n = self.sites.entry((st.cur.f.id, st.cur.pc)).or_insert(0);
            *n += 1;
            if *n == 1 {
                eprintln!("fork at {}: {}", self.here(&st), self.x.show(alts[0].0, 12));
            }
        }
        let mut jstop = Stop::No;
        if st.merge > 0 {
            let blk = st.cur.f.block_of[st.cur.pc as usize];
            let j = st.cur.f.ipdoms()[blk as usize];
            if j == NONE {
                jstop = Stop::Ret(depth);
            } else if j != NONE - 1 {
                jstop = Stop::Block(depth, j);
            }
        }
        let base = if jstop != Stop::No { Some(st.clone()) } else { None };
        let mut res: Vec<State> = vec![];
        let mut st = Some(st);
        let n = alts.len();
        for (i, (c, m, e)) in alts.into_iter().enumerate() {
            let mut s = if i + 1 == n { st.take().unwrap() } else { st.as_ref().unwrap().clone() };
            s.model = m;
            s.forks += 1;
            self.add_cons(&mut s, c);
            self.take_edge(&mut s, e);
            if jstop != Stop::No {
                if self.at_stop(&s, jstop) {
                    res.push(s);
                } else {
                    let r = self.explore(s, jstop);
                    res.extend(r);
                }
            } else if self.at_stop(&s, stop) {
                out.push(s);
            } else {
                work.push(s);
            }
        }
        if let Some(base) = base {
            let merged = self.merge_all(&base, res);
            for s in merged {
                let reached = match stop {
                    Stop::Block(..) => self.at_stop(&s, stop),
                    Stop::Ret(d) => s.stack.len() < d,
                    Stop::No => false,
                };
                if reached {
                    out.push(s);
                } else {
                    work.push(s);
                }
            }
        }
    }
    fn run(&mut self, mut st: State, stop: Stop, out: &mut Vec<State>, work: &mut Vec<State>) {
        let mut budget = 0u32;
        loop {
            st.steps += 1;
            self.steps += 1;
            budget += 1;
            if budget & 0xffff == 0 {
                if st.steps > self.lim.max_steps {
                    self.finish(&st, End::Endless("step limit".into()));
                    return;
                }
                if st.mem.heap_top > HEAP_BASE + self.lim.max_heap {
                    self.finish(&st, End::Endless("memory limit".into()));
                    return;
                }
                if self.t0.elapsed().as_secs_f64() > self.lim.max_secs {
                    self.over = true;
                    return;
                }
            }
            let f = st.cur.f;
            let ins = &f.ins[st.cur.pc as usize];
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.cur.regs[$d as usize] = v;
                    st.cur.pc += 1;
                }};
            }
            macro_rules! tryr {
                ($e:expr) => {
                    match $e {
                        Ok(v) => v,
                        Err(h) => {
                            if self.handle(&mut st, h, work) {
                                continue;
                            }
                            return;
                        }
                    }
                };
            }
            macro_rules! mem {
                ($e:expr) => {
                    match $e {
                        Ok(v) => v,
                        Err(e) => {
                            let h = self.segv(&st, e);
                            if self.handle(&mut st, h, work) {
                                continue;
                            }
                            return;
                        }
                    }
                };
            }
            match ins {
                Ins::Bin { op, w, d, a, b } => {
                    let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                    set!(*d, self.bin(*op, *w, x, y))
                }
                Ins::Icmp { p, w, d, a, b } => {
                    let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                    set!(*d, self.icmp(*p, *w, x, y))
                }
                Ins::Load { d, w, p } => {
                    let a = self.get(&st, *p);
                    let v = match a {
                        Val::I(a) => mem!(self.load(&st, a, *w)),
                        Val::S(e) => tryr!(self.load_sym(&mut st, e, *w)),
                        _ => panic!(),
                    };
                    set!(*d, v)
                }
                Ins::Store { w, v, p } => {
                    let a = self.get(&st, *p);
                    let a = tryr!(self.conc(&mut st, &a));
                    let x = self.get(&st, *v);
                    mem!(self.store(&mut st, a, *w, &x));
                    st.cur.pc += 1;
                }
                Ins::Gep { d, base, off, terms } => {
                    let b = self.get(&st, *base);
                    let mut acc = match b {
                        Val::I(b) => Val::I(b.wrapping_add(*off as u64)),
                        b => self.bin(Op::Add, 64, b, Val::I(*off as u64)),
                    };
                    for (o, w, scale) in terms.iter() {
                        let t = self.get(&st, *o);
                        match (&acc, &t) {
                            (Val::I(x), Val::I(y)) => acc = Val::I(x.wrapping_add((sx(*y, *w) as u64).wrapping_mul(*scale))),
                            _ => {
                                let t = if *w < 64 { self.cast(Cast::Sext, *w, 64, t) } else { t };
                                let p = self.bin(Op::Mul, 64, t, Val::I(*scale));
                                acc = self.bin(Op::Add, 64, acc, p);
                            }
                        }
                    }
                    set!(*d, acc)
                }
                Ins::Br(e) => {
                    let e: &'static Edge = unsafe { &*(&**e as *const Edge) };
                    self.take_edge(&mut st, e);
                    if self.at_stop(&st, stop) {
                        out.push(st);
                        return;
                    }
                }
                Ins::CondBr { c, t, f } => {
                    let (t, f): (&'static Edge, &'static Edge) = unsafe { (&*(&**t as *const Edge), &*(&**f as *const Edge)) };
                    let v = self.get(&st, *c);
                    let b = match v {
                        Val::I(x) => Some(x & 1 == 1),
                        Val::S(e) => match self.quick(&st, e) {
                            Some(b) => Some(b),
                            None => {
                                let (mt, mf) = self.both(&st, e);
                                match (mt, mf) {
                                    (Some(_), None) => Some(true),
                                    (None, Some(_)) => Some(false),
                                    (None, None) => {
                                        self.finish(&st, End::Infeasible);
                                        return;
                                    }
                                    (Some(a), Some(b)) => {
                                        let ne = self.x.not(e);
                                        self.fork_edges(st, vec![(e, a, t), (ne, b, f)], stop, out, work);
                                        return;
                                    }
                                }
                            }
                        },
                        _ => panic!(),
                    };
                    self.take_edge(&mut st, if b.unwrap() { t } else { f });
                    if self.at_stop(&st, stop) {
                        out.push(st);
                        return;
                    }
                }
                Ins::Switch { v, w, cases, map, def } => {
                    let x = self.get(&st, *v);
                    let e: &'static Edge = match x {
                        Val::I(i) => {
                            let e = match map.get(&i) {
                                Some(k) => &cases[*k as usize].1,
                                None => &**def,
                            };
                            unsafe { &*(e as *const Edge) }
                        }
                        Val::S(e) => {
                            // group by edge target
                            let mut conds: Vec<(E, &'static Edge)> = vec![];
                            let mut none = self.x.tru();
                            for (k, ed) in cases.iter() {
                                let kk = self.x.k(*k, *w);
                                let c = self.x.eq(e, kk);
                                if self.x.cval(c) == Some(0) {
                                    continue;
                                }
                                let nc = self.x.not(c);
                                none = self.x.and1(none, nc);
                                let ed: &'static Edge = unsafe { &*(ed as *const Edge) };
                                let same = conds.iter_mut().find(|x| x.1.block == ed.block && edge_same(x.1, ed));
                                match same {
                                    Some(s) => s.0 = self.x.or1(s.0, c),
                                    None => conds.push((c, ed)),
                                }
                            }
                            let ded: &'static Edge = unsafe { &*(&**def as *const Edge) };
                            match conds.iter_mut().find(|x| x.1.block == ded.block && edge_same(x.1, ded)) {
                                Some(s) => s.0 = self.x.or1(s.0, none),
                                None => conds.push((none, ded)),
                            }
                            let mut alts = vec![];
                            for (c, ed) in conds {
                                match self.quick(&st, c) {
                                    Some(false) => continue,
                                    _ => {}
                                }
                                self.branches += 1;
                                if let Some(m) = self.feasible(&st, c) {
                                    alts.push((c, m, ed));
                                }
                            }
                            if alts.is_empty() {
                                self.finish(&st, End::Infeasible);
                                return;
                            }
                            if alts.len() > 1 {
                                self.fork_edges(st, alts, stop, out, work);
                                return;
                            }
                            alts[0].2
                        }
                        _ => panic!(),
                    };
                    self.take_edge(&mut st, e);
                    if self.at_stop(&st, stop) {
                        out.push(st);
                        return;
                    }
                }
                Ins::Call(ci) => {
                    let ci: &'static CallInfo = unsafe { &*(&**ci as *const CallInfo) };
                    let mut args: Vec<Val> = Vec::with_capacity(ci.args.len());
                    for a in ci.args.iter() {
                        let v = self.get(&st, *a);
                        args.push(v);
                    }
                    let mut fid = match &ci.callee {
                        Callee::Direct(f) => *f,
                        Callee::Asm => {
                            self.ret_here(&mut st, ci, Val::I(0));
                            continue;
                        }
                        Callee::Indirect(o) => {
                            let p = self.get(&st, *o);
                            let a = tryr!(self.conc(&mut st, &p));
                            match self.m.func_at(a) {
                                Some(f) => f,
                                None => {
                                    self.finish(&st, End::Error(format!("call through bad pointer {:#x} at {}", a, self.here(&st))));
                                    return;
                                }
                            }
                        }
                    };
                    let mut entered = false;
                    for _ in 0..3 {
                        let h = self.hooks[fid as usize];
                        if let Some(h) = h {
                            match h(self, &mut st, ci, args.clone()) {
                                HookRes::Ret(v) => {
                                    self.ret_here(&mut st, ci, v);
                                    entered = true;
                                }
                                HookRes::Real => {}
                                HookRes::Tail(a, na) => {
                                    match self.m.func_at(a) {
                                        Some(f) => fid = f,
                                        None => {
                                            self.finish(&st, End::Error("tail call".into()));
                                            return;
                                        }
                                    }
                                    args = na;
                                    continue;
                                }
                                h => {
                                    if self.handle(&mut st, h, work) {
                                        entered = true;
                                    } else {
                                        return;
                                    }
                                }
                            }
                        }
                        break;
                    }
                    if entered {
                        if self.at_stop(&st, stop) {
                            out.push(st);
                            return;
                        }
                        continue;
                    }
                    match self.func(fid) {
                        Some(f) => {
                            if st.stack.len() > 3000 {
                                self.finish(&st, End::Panic("stack overflow (call depth 3000)".into()));
                                return;
                            }
                            self.enter(&mut st, f, args, ci.dst, ci.normal.as_ref());
                        }
                        None => {
                            let n = self.m.funcs[fid as usize].name.clone();
                            self.finish(&st, End::Error(format!("unmodelled external {} at {}", n, self.here(&st))));
                            return;
                        }
                    }
                }
                Ins::Ret(v) => {
                    let v = v.map(|o| self.get(&st, o));
                    let d = st.stack.len();
                    if !self.ret(&mut st, v) {
                        self.finish(&st, End::Done);
                        return;
                    }
                    match stop {
                        Stop::Ret(sd) if d == sd => {
                            out.push(st);
                            return;
                        }
                        Stop::Block(..) => {
                            if self.at_stop(&st, stop) && st.stack.len() + 1 == d {
                                // an invoke edge may lead straight to the join block
                                out.push(st);
                                return;
                            }
                        }
                        _ => {}
                    }
                }
                Ins::Cast { k, fw, tw, d, a } => {
                    let x = self.get(&st, *a);
                    set!(*d, self.cast(*k, *fw, *tw, x))
                }
                Ins::Select { d, c, a, b, w, ptr } => {
                    let cv = self.get(&st, *c);
                    let r = match cv {
                        Val::I(x) => self.get(&st, if x & 1 == 1 { *a } else { *b }),
                        Val::S(e) => {
                            let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                            match self.quick(&st, e) {
                                Some(q) => {
                                    if q {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                None => {
                                    let same = match (&x, &y) {
                                        (Val::I(p), Val::I(q)) => p == q,
                                        (Val::S(p), Val::S(q)) => p == q,
                                        _ => false,
                                    };
                                    if same {
                                        x
                                    } else if *ptr || *w == 0 || (*w == 64 && matches!((&x, &y), (Val::I(_), Val::I(_)))) {
                                        let q = tryr!(self.cond(&mut st, e));
                                        if q {
                                            x
                                        } else {
                                            y
                                        }
                                    } else {
                                        self.select(e, x, y, *w)
                                    }
                                }
                            }
                        }
                        _ => panic!(),
                    };
                    set!(*d, r)
                }
                Ins::Alloca { d, size, align } => {
                    let p = st.mem.alloca(*size, *align);
                    st.cur.allocas.push((p, *size));
                    set!(*d, Val::I(p))
                }
                Ins::Extract { d, a, path } => {
                    let mut v = self.get(&st, *a);
                    for i in path.iter() {
                        v = match &v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => panic!("extractvalue"),
                        };
                    }
                    set!(*d, v)
                }
                Ins::Insert { d, a, v, path, t } => {
                    let base = self.get(&st, *a);
                    let nv = self.get(&st, *v);
                    let base = match base {
                        Val::A(_) => base,
                        _ => zero_val(t),
                    };
                    fn ins(b: &Val, path: &[u32], nv: Val) -> Val {
                        if path.is_empty() {
                            return nv;
                        }
                        match b {
                            Val::A(x) => {
                                let mut y = (**x).clone();
                                y[path[0] as usize] = ins(&y[path[0] as usize], &path[1..], nv);
                                Val::A(Rc::new(y))
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    set!(*d, ins(&base, path, nv))
                }
                Ins::LoadT { d, t, p } => {
                    let a = self.get(&st, *p);
                    let a = tryr!(self.conc(&mut st, &a));
                    let v = mem!(self.load_t(&st, a, t));
                    set!(*d, v)
                }
                Ins::StoreT { t, v, p } => {
                    let a = self.get(&st, *p);
                    let a = tryr!(self.conc(&mut st, &a));
                    let x = self.get(&st, *v);
                    mem!(self.store_t(&mut st, a, t, &x));
                    st.cur.pc += 1;
                }
                Ins::Mov { d, a } => {
                    let v = self.get(&st, *a);
                    set!(*d, v)
                }
                Ins::Nop => st.cur.pc += 1,
                Ins::FBin { op, w, d, a, b } => {
                    let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                    if *w == 64 && (matches!(x, Val::S(_)) || matches!(y, Val::S(_))) {
                        match self.dec_arith(&mut st, *op, &x, &y) {
                            Ok(Some(v)) => set!(*d, v),
                            Ok(None) => set!(*d, self.fbin(*op, *w, x, y)),
                            Err(h) => {
                                if !self.handle(&mut st, h, work) {
                                    return;
                                }
                            }
                        }
                    } else {
                        set!(*d, self.fbin(*op, *w, x, y))
                    }
                }
                Ins::FNeg { w, d, a } => {
                    let x = self.get(&st, *a);
                    let k = Val::I(1u64 << (*w - 1));
                    if let Some(v) = self.dec_neg(&x, *w) {
                        set!(*d, v)
                    } else {
                        set!(*d, self.bin(Op::Xor, *w, x, k))
                    }
                }
                Ins::FCmp { p, w, d, a, b } => {
                    let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                    set!(*d, self.fcmp(*p, *w, x, y))
                }
                Ins::VBin { op, w, n, d, a, b } => {
                    let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                    let (Val::A(x), Val::A(y)) = (x, y) else { panic!() };
                    let r = (0..*n as usize).map(|i| self.bin(*op, *w, x[i].clone(), y[i].clone())).collect();
                    set!(*d, Val::A(Rc::new(r)))
                }
                Ins::VIcmp { p, w, n, d, a, b } => {
                    let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                    let (Val::A(x), Val::A(y)) = (x, y) else { panic!() };
                    let r = (0..*n as usize).map(|i| self.icmp(*p, *w, x[i].clone(), y[i].clone())).collect();
                    set!(*d, Val::A(Rc::new(r)))
                }
                Ins::VCast { k, fw, tw, n, d, a } => {
                    let Val::A(x) = self.get(&st, *a) else { panic!() };
                    let r = (0..*n as usize).map(|i| self.cast(*k, *fw, *tw, x[i].clone())).collect();
                    set!(*d, Val::A(Rc::new(r)))
                }
                Ins::VSelect { d, c, a, b, n, w } => {
                    let (c, x, y) = (self.get(&st, *c), self.get(&st, *a), self.get(&st, *b));
                    let (Val::A(c), Val::A(x), Val::A(y)) = (c, x, y) else { panic!() };
                    let r = (0..*n as usize)
                        .map(|i| match &c[i] {
                            Val::I(k) => {
                                if k & 1 == 1 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            Val::S(e) => self.select(*e, x[i].clone(), y[i].clone(), *w),
                            _ => panic!(),
                        })
                        .collect();
                    set!(*d, Val::A(Rc::new(r)))
                }
                Ins::BitcastVec { from, to, d, a } => {
                    let v = self.get(&st, *a);
                    let r = self.bitcast(from, to, v);
                    set!(*d, r)
                }
                Ins::ExtractElt { d, a, i } => {
                    let Val::A(x) = self.get(&st, *a) else { panic!() };
                    let iv = self.get(&st, *i);
                    let i = tryr!(self.conc(&mut st, &iv));
                    set!(*d, x[i as usize].clone())
                }
                Ins::InsertElt { d, a, v, i, n } => {
                    let base = self.get(&st, *a);
                    let nv = self.get(&st, *v);
                    let iv = self.get(&st, *i);
                    let i = tryr!(self.conc(&mut st, &iv));
                    let mut x = match base {
                        Val::A(x) => (*x).clone(),
                        _ => vec![Val::I(0); *n as usize],
                    };
                    x[i as usize] = nv;
                    set!(*d, Val::A(Rc::new(x)))
                }
                Ins::Shuffle { d, a, b, mask, n } => {
                    let (x, y) = (self.get(&st, *a), self.get(&st, *b));
                    let ga = |v: &Val, i: usize| match v {
                        Val::A(x) => x[i].clone(),
                        _ => Val::I(0),
                    };
                    let r = mask
                        .iter()
                        .map(|&k| {
                            if k < 0 {
                                Val::I(0)
                            } else if (k as u32) < *n {
                                ga(&x, k as usize)
                            } else {
                                ga(&y, k as usize - *n as usize)
                            }
                        })
                        .collect();
                    set!(*d, Val::A(Rc::new(r)))
                }
                Ins::Rmw { op, w, d, p, v } => {
                    let a = self.get(&st, *p);
                    let a = tryr!(self.conc(&mut st, &a));
                    let x = self.get(&st, *v);
                    let old = mem!(self.load(&st, a, *w));
                    let nv = match op {
                        0 => x,
                        1 => self.bin(Op::Add, *w, old.clone(), x),
                        2 => self.bin(Op::Sub, *w, old.clone(), x),
                        3 => self.bin(Op::And, *w, old.clone(), x),
                        4 => self.bin(Op::Or, *w, old.clone(), x),
                        5 => self.bin(Op::Xor, *w, old.clone(), x),
                        _ => match (&old, &x) {
                            (Val::I(p), Val::I(q)) => Val::I(if *op == 6 { *p.max(q) } else { *p.min(q) }),
                            _ => panic!("rmw"),
                        },
                    };
                    mem!(self.store(&mut st, a, *w, &nv));
                    if *d != NONE {
                        st.cur.regs[*d as usize] = old;
                    }
                    st.cur.pc += 1;
                }
                Ins::CmpXchg { w, d, p, old, new } => {
                    let a = self.get(&st, *p);
                    let a = tryr!(self.conc(&mut st, &a));
                    let cur = mem!(self.load(&st, a, *w));
                    let cv = tryr!(self.conc(&mut st, &cur));
                    let ov = self.get(&st, *old);
                    let ov = tryr!(self.conc(&mut st, &ov));
                    let nv = self.get(&st, *new);
                    let ok = cv == ov;
                    if ok {
                        mem!(self.store(&mut st, a, *w, &nv));
                    }
                    if *d != NONE {
                        st.cur.regs[*d as usize] = Val::A(Rc::new(vec![Val::I(cv), b2v(ok)]));
                    }
                    st.cur.pc += 1;
                }
                Ins::Unreachable => {
                    self.finish(&st, End::Error(format!("unreachable executed at {}", self.here(&st))));
                    return;
                }
                Ins::Bad(t) => {
                    self.finish(&st, End::Error(format!("unsupported instruction: {}", t)));
                    return;
                }
            }
        }
    }
    /// returns true when `st` should simply continue (re-execute)
    fn handle(&mut self, st: &mut State, h: HookRes, work: &mut Vec<State>) -> bool {
        match h {
            HookRes::Again(mut v) => {
                if v.is_empty() {
                    self.finish(st, End::Infeasible);
                    return false;
                }
                let last = v.remove(0);
                work.extend(v);
                *st = last;
                true
            }
            HookRes::End(e) => {
                self.finish(st, e);
                false
            }
            _ => unreachable!(),
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: Val) -> Val {
        // flatten to one bit string
        let bits = |t: &Ty| match t {
            Ty::Vec(n, e) => *n as u16 * e.bits(),
            t => t.bits(),
        };
        let n = bits(from);
        assert!(n <= 128, "bitcast {:?}", from);
        let e = match (from, &v) {
            (Ty::Vec(_, t), Val::A(x)) => {
                let w = t.bits() as u8;
                let mut acc = self.e(&x[0], w);
                for y in &x[1..] {
                    let h = self.e(y, w);
                    acc = self.x.concat(h, acc);
                }
                acc
            }
            (t, v) => self.e(v, t.bits() as u8),
        };
        match to {
            Ty::Vec(k, t) => {
                let w = t.bits() as u8;
                let mut r = vec![];
                for i in 0..*k as usize {
                    let x = self.x.extract(e, (i * w as usize) as u8, w);
                    r.push(self.v(x));
                }
                Val::A(Rc::new(r))
            }
            _ => self.v(e),
        }
    }
    // ---------- merging ----------
    fn liveset(&mut self, f: &'static Func, b: u32) -> Rc<Vec<u32>> {
        if let Some(l) = self.live.get(&(f.id, b)) {
            return l.clone();
        }
        // backwards data flow over the whole function
        let nb = f.bstart.len();
        let words = (f.nregs as usize + 63) / 64;
        let mut inn: Vec<Vec<u64>> = vec![vec![0; words]; nb];
        let mut ch = true;
        let mut uses: Vec<Opd> = vec![];
        while ch {
            ch = false;
            for bi in (0..nb).rev() {
                let s = f.bstart[bi] as usize;
                let e = f.bstart.get(bi + 1).map_or(f.ins.len(), |x| *x as usize);
                let mut cur = vec![0u64; words];
                for i in (s..e).rev() {
                    let mut edges: Vec<&Edge> = vec![];
                    uses.clear();
                    let def = ins_info(&f.ins[i], &mut uses, &mut edges);
                    for ed in &edges {
                        let mut t = inn[ed.block as usize].clone();
                        for (d, _) in ed.moves.iter() {
                            t[*d as usize / 64] &= !(1 << (d % 64));
                        }
                        for (_, o) in ed.moves.iter() {
                            if let Opd::R(r) = o {
                                t[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                        for k in 0..words {
                            cur[k] |= t[k];
                        }
                    }
                    if def != NONE {
                        cur[def as usize / 64] &= !(1 << (def % 64));
                    }
                    for u in &uses {
                        if let Opd::R(r) = u {
                            cur[*r as usize / 64] |= 1 << (r % 64);
                        }
                    }
                }
                if cur != inn[bi] {
                    inn[bi] = cur;
                    ch = true;
                }
            }
        }
        for bi in 0..nb {
            let mut v = vec![];
            for r in 0..f.nregs {
                if inn[bi][r as usize / 64] >> (r % 64) & 1 == 1 {
                    v.push(r);
                }
            }
            self.live.insert((f.id, bi as u32), Rc::new(v));
        }
        self.live[&(f.id, b)].clone()
    }
    fn member(&mut self, v: u32, set: &[u64; 4], base: &[u64; 4]) -> E {
        let full = (0..4).all(|i| base[i] & !set[i] == 0);
        if full {
            return self.x.tru();
        }
        let vi = self.x.vars[v as usize].clone();
        let n = 1usize << vi.w;
        let t: Vec<u64> = (0..n).map(|i| set[i >> 6] >> (i & 63) & 1).collect();
        let e = self.x.var_e[v as usize];
        self.x.lut(e, 1, t)
    }
    fn suffix(&mut self, base: &State, s: &State) -> (Vec<(u32, [u64; 4])>, Vec<E>) {
        let mut dv = vec![];
        if !Rc::ptr_eq(&base.dom, &s.dom) {
            for v in 0..s.dom.len() {
                let b = self.dom_of(base, v as u32);
                if s.dom[v] != b {
                    dv.push((v as u32, s.dom[v]));
                }
            }
        }
        (dv, s.cons[base.cons.len()..].to_vec())
    }
    fn merge_all(&mut self, base: &State, states: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        for s in states {
            let mut s = Some(s);
            for i in 0..out.len() {
                if let Some(m) = self.try_merge(base, &out[i], s.as_ref().unwrap()) {
                    out[i] = m;
                    s = None;
                    self.merges += 1;
                    break;
                }
            }
            if let Some(s) = s {
                if !out.is_empty() {
                    self.merge_fail += 1;
                }
                out.push(s);
            }
        }
        out
    }
    fn try_merge(&mut self, base: &State, a: &State, b: &State) -> Option<State> {
        if a.stack.len() != b.stack.len() || a.cur.pc != b.cur.pc || a.cur.f.id != b.cur.f.id || a.mem.sp != b.mem.sp || a.mem.heap_top != b.mem.heap_top || a.inputs.len() != b.inputs.len() || a.merge != b.merge || a.expect_panic != b.expect_panic {
            return None;
        }
        if !Rc::ptr_eq(&a.mem.free, &b.mem.free) && a.mem.free != b.mem.free {
            return None;
        }
        if !Rc::ptr_eq(&a.inputs, &b.inputs) || !Rc::ptr_eq(&a.ext, &b.ext) {
            return None;
        }
        if !a.cons.starts_with(&base.cons) || !b.cons.starts_with(&base.cons) {
            return None;
        }
        // registers that differ
        let live = {
            let blk = a.cur.f.block_of[a.cur.pc as usize];
            if a.cur.f.bstart[blk as usize] == a.cur.pc {
                Some(self.liveset(a.cur.f, blk))
            } else {
                None
            }
        };
        let all: Vec<u32>;
        let lr: &[u32] = match &live {
            Some(l) => l,
            None => {
                all = (0..a.cur.f.nregs).collect();
                &all
            }
        };
        let small = a.merge == 1;
        let mut diffs = vec![];
        for &r in lr {
            let (x, y) = (&a.cur.regs[r as usize], &b.cur.regs[r as usize]);
            if val_same(x, y) {
                continue;
            }
            if live.is_none() {
                // not at a block start: only the just returned register may differ
            }
            if !self.val_mergeable(x, y, small) {
                return None;
            }
            diffs.push(r);
        }
        // memory
        let mut mdiff: Vec<u64> = vec![];
        for r in 0..NREG {
            let (pa, pb) = (&a.mem.regs[r], &b.mem.regs[r]);
            let n = pa.len().max(pb.len());
            let basea = [RW_BASE, HEAP_BASE, STACK_BASE][r];
            for i in 0..n {
                let (x, y) = (pa.get(i).cloned().flatten(), pb.get(i).cloned().flatten());
                let addr = basea + (i * PS) as u64;
                if r == 2 && addr >= a.mem.sp {
                    break;
                }
                match (x, y) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        if Rc::ptr_eq(&x, &y) {
                            continue;
                        }
                        for j in 0..PS {
                            let (sx_, sy) = (x.sym.as_ref().map_or(0, |s| s[j]), y.sym.as_ref().map_or(0, |s| s[j]));
                            if sx_ != sy || (sx_ == 0 && x.data[j] != y.data[j]) {
                                if r == 2 && addr + j as u64 >= a.mem.sp {
                                    break;
                                }
                                mdiff.push(addr + j as u64);
                                if small || mdiff.len() > 4096 {
                                    return None;
                                }
                            }
                        }
                    }
                    (Some(p), None) | (None, Some(p)) => {
                        if r == 2 {
                            if p.data.iter().any(|x| *x != 0) || p.sym.as_ref().map_or(false, |s| s.iter().any(|e| *e != 0)) {
                                return None;
                            }
                        } else {
                            return None;
                        }
                    }
                }
            }
        }
        // pointers must not be merged: reject if a differing aligned word looks like one
        {
            let mut last = 0;
            for &d in &mdiff {
                let w = d & !7;
                if w == last {
                    continue;
                }
                last = w;
                for s in [a, b] {
                    if let Ok(v) = s.mem.read(w, 8) {
                        if looks_ptr(v as u64) {
                            return None;
                        }
                    }
                }
            }
        }
        let (da, ca) = self.suffix(base, a);
        let (db, cb) = self.suffix(base, b);
        let mut pa = self.x.tru();
        for (v, s) in &da {
            let bd = self.dom_of(base, *v);
            let m = self.member(*v, s, &bd);
            pa = self.x.and1(pa, m);
        }
        for c in &ca {
            pa = self.x.and1(pa, *c);
        }
        let mut pb = self.x.tru();
        for (v, s) in &db {
            let bd = self.dom_of(base, *v);
            let m = self.member(*v, s, &bd);
            pb = self.x.and1(pb, m);
        }
        for c in &cb {
            pb = self.x.and1(pb, *c);
        }
        let mut m = a.clone();
        m.dom = base.dom.clone();
        m.cons = base.cons.clone();
        m.known = base.known.clone();
        // union of the path conditions
        let simple = ca.is_empty() && cb.is_empty() && da.len() <= 1 && db.len() <= 1 && (da.is_empty() || db.is_empty() || da[0].0 == db[0].0);
        if simple {
            if !da.is_empty() && !db.is_empty() {
                let v = da[0].0;
                self.grow_dom(&mut m, v);
                let d = &mut Rc::make_mut(&mut m.dom)[v as usize];
                for i in 0..4 {
                    d[i] = da[0].1[i] | db[0].1[i];
                }
            }
        } else {
            let u = self.x.or1(pa, pb);
            if self.x.cval(u).is_none() {
                let nu = self.x.not(u);
                // complete split of the base? then nothing has to be remembered
                if self.feasible(base, nu).is_some() {
                    self.add_cons(&mut m, u);
                }
            }
        }
        // condition selecting a's values
        let cost = |s: &Self, e: E| s.x.support(e).len();
        let (sel, flip) = if self.x.cval(pa).is_none() && (self.x.cval(pb).is_some() || cost(self, pa) <= cost(self, pb)) { (pa, false) } else { (pb, true) };
        let (first, second) = if flip { (b, a) } else { (a, b) };
        for r in diffs {
            let v = self.val_merge(sel, &first.cur.regs[r as usize], &second.cur.regs[r as usize], a.cur.f, r);
            m.cur.regs[r as usize] = v?;
        }
        for ad in mdiff {
            let (p, q) = (first.mem.byte(ad)?, second.mem.byte(ad)?);
            let e1 = if p.1 != 0 { p.1 } else { self.x.k(p.0 as u64, 8) };
            let e2 = if q.1 != 0 { q.1 } else { self.x.k(q.0 as u64, 8) };
            let e = self.ite_c(sel, e1, e2);
            match self.x.c64(e) {
                Some(c) => m.mem.write(ad, 1, c as u128).ok()?,
                None => m.mem.write_sym(ad, e).ok()?,
            }
        }
        let mut cov = (*m.covers).clone();
        for c in b.covers.iter() {
            if !cov.contains(c) {
                cov.push(*c);
            }
        }
        m.covers = Rc::new(cov);
        m.abs = a.abs || b.abs;
        m.steps = a.steps.max(b.steps);
        Some(m)
    }
    /// ite, canonicalised to a table when everything depends on one byte
    fn ite_c(&mut self, c: E, a: E, b: E) -> E {
        let e = self.x.ite(c, a, b);
        if let Some(v) = self.x.single(e) {
            if self.x.w(e) <= 64 && self.x.n(e).op != Op::Lut {
                let l = self.x.lane(e);
                let w = self.x.w(e);
                let ve = self.x.var_e[v as usize];
                let vw = self.x.w(ve);
                let t: Vec<u64> = l[..1 << vw].to_vec();
                return self.x.lut(ve, w, t);
            }
        }
        e
    }
    /// addresses inside constant data may be merged: loads through them become table lookups
    fn const_range(&self, v: &Val) -> Option<(u64, u64)> {
        let r = match v {
            Val::I(i) => (*i, *i),
            Val::S(e) => self.x.iv[*e as usize],
            _ => return None,
        };
        if r.0 >= CODE_BASE && r.1 < RW_BASE {
            Some(r)
        } else {
            None
        }
    }
    fn val_mergeable(&self, a: &Val, b: &Val, small: bool) -> bool {
        if !small {
            if let (Some(p), Some(q)) = (self.const_range(a), self.const_range(b)) {
                if p.1.max(q.1) - p.0.min(q.0) <= 4096 {
                    return true;
                }
            }
        }
        match (a, b) {
            (Val::A(x), Val::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| val_same(p, q) || self.val_mergeable(p, q, small)),
            (Val::A(_), _) | (_, Val::A(_)) => false,
            _ => {
                for v in [a, b] {
                    match v {
                        Val::I(i) => {
                            if *i > u32::MAX as u64 && (small || looks_ptr(*i)) {
                                return false;
                            }
                        }
                        Val::S(e) => {
                            if small && self.x.w(*e) > 32 && self.x.iv[*e as usize].1 > u32::MAX as u64 {
                                return false;
                            }
                        }
                        _ => {}
                    }
                }
                true
            }
        }
    }
    fn val_merge(&mut self, c: E, a: &Val, b: &Val, f: &'static Func, r: u32) -> Option<Val> {
        if val_same(a, b) {
            return Some(a.clone());
        }
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    let _ = i;
                    v.push(self.val_merge(c, p, q, f, NONE)?);
                }
                Some(Val::A(Rc::new(v)))
            }
            (Val::A(_), _) | (_, Val::A(_)) => None,
            _ => {
                let w = match (a, b) {
                    (Val::S(e), _) | (_, Val::S(e)) => self.x.w(*e),
                    _ => {
                        if r == NONE {
                            return None;
                        }
                        reg_width(f, r)?
                    }
                };
                let (ea, eb) = (self.e(a, w), self.e(b, w));
                let e = self.ite_c(c, ea, eb);
                Some(self.v(e))
            }
        }
    }
}

fn reg_width(f: &'static Func, r: u32) -> Option<u8> {
    let w = f.regw().get(r as usize).copied().unwrap_or(0);
    if w == 0 || w > 64 {
        None
    } else {
        Some(w as u8)
    }
}

fn looks_ptr(v: u64) -> bool {
    v >= CODE_BASE && v < STACK_BASE + (1 << 40)
}

pub fn val_same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::I(x), Val::I(y)) => x == y,
        (Val::S(x), Val::S(y)) => x == y,
        (Val::A(x), Val::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| val_same(p, q))),
        _ => false,
    }
}

fn edge_same(a: &Edge, b: &Edge) -> bool {
    a.moves.len() == b.moves.len()
        && a.moves.iter().zip(b.moves.iter()).all(|((d1, o1), (d2, o2))| {
            d1 == d2
                && match (o1, o2) {
                    (Opd::R(x), Opd::R(y)) => x == y,
                    (Opd::I(x), Opd::I(y)) => x == y,
                    _ => false,
                }
        })
}

fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Val::A(Rc::new((0..t.nfields()).map(|i| zero_val(t.field(i))).collect())),
        _ => Val::I(0),
    }
}

pub fn base_dom(vi: &VarInfo) -> [u64; 4] {
    if vi.w > 8 {
        return [u64::MAX; 4];
    }
    let mut d = [0u64; 4];
    for i in 0..(1usize << vi.w) {
        if (i as u64) >= vi.lo && (i as u64) <= vi.hi && vi.set.map_or(true, |s| s[i >> 6] >> (i & 63) & 1 == 1) {
            d[i >> 6] |= 1 << (i & 63);
        }
    }
    d
}
pub fn lowest(d: &[u64; 4]) -> u64 {
    for i in 0..4 {
        if d[i] != 0 {
            return i as u64 * 64 + d[i].trailing_zeros() as u64;
        }
    }
    0
}
fn set_model(m: &mut Vec<u64>, v: u32, x: u64, c: &Ctx) {
    while m.len() <= v as usize {
        let vi = &c.vars[m.len()];
        m.push(vi.set.map_or(vi.lo, |s| lowest(&s)));
    }
    m[v as usize] = x;
}

#[inline]
pub fn fold64(op: Op, w: u8, x: u64, y: u64) -> Option<u64> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => (sx(x, w) >> y.min(63)) as u64 & m,
        Op::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Op::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Op::SDiv => {
            if y == 0 {
                return None;
            }
            sx(x, w).wrapping_div(sx(y, w)) as u64 & m
        }
        Op::SRem => {
            if y == 0 {
                return None;
            }
            sx(x, w).wrapping_rem(sx(y, w)) as u64 & m
        }
        _ => return None,
    })
}

/// readable tail of a v0-mangled name: the identifiers in it
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if k == 0 || j + k > b.len() {
                i = j;
                continue;
            }
            let st = if b[j] == b'_' { j + 1 } else { j };
            let en = st + k;
            if en <= b.len() {
                let id = &n[st..en];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !id.as_bytes()[0].is_ascii_digit() {
                    out.push(id.to_string());
                    i = en;
                    continue;
                }
            }
            i = j;
            continue;
        }
        // skip crate disambiguators like CskADBYZwJmSU_
        if b[i] == b's' && i + 1 < b.len() && b[i - 1] == b'C' {
            while i < b.len() && b[i] != b'_' {
                i += 1
            }
        }
        i += 1;
    }
    let k = out.len().saturating_sub(7);
    out[k..].join("::")
}
