//! Text LLVM IR reader: lazily compiles functions to a compact register code.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Arc<Ty>),
    Struct(bool, Vec<Ty>),
    Vec(u32, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(p, fs) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let a = self.align();
                ((*w as u64 + 7) / 8 + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let (offs, end) = self.layout();
                let _ = offs;
                end
            }
            Ty::Vec(n, t) => match &**t {
                Ty::Int(1) => (*n as u64 + 7) / 8,
                t => *n as u64 * t.size(),
            },
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(p, fs) => {
                let mut o = 0u64;
                let mut v = vec![];
                for f in fs {
                    if !*p {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    v.push(o);
                    o += f.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                (v, o)
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                ((0..*n).map(|i| i * s).collect(), n * s)
            }
            Ty::Vec(n, t) => {
                let s = t.size();
                ((0..*n as u64).map(|i| i * s).collect(), *n as u64 * s)
            }
            _ => panic!("layout of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(_, fs) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(_, fs) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// bit width of a scalar type
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum CVal {
    I(u64),
    W(u128, u8),
    Agg(Vec<CVal>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    I(u64),
    K(u32),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub block: u32,
    pub conflict: bool,
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub struct CallInfo {
    pub callee: Callee,
    pub args: Box<[Opd]>,
    pub argw: Box<[u16]>,
    pub ret: Ty,
    pub dst: u32,
    pub line: u32,
    pub normal: Option<Edge>, // invoke
}

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: crate::expr::Op, w: u8, d: u32, a: Opd, b: Opd },
    VBin { op: crate::expr::Op, w: u8, n: u16, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    VIcmp { p: Pred, w: u8, n: u16, d: u32, a: Opd, b: Opd },
    FBin { op: u8, w: u8, d: u32, a: Opd, b: Opd },
    FNeg { w: u8, d: u32, a: Opd },
    FCmp { p: u8, w: u8, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, fw: u8, tw: u8, d: u32, a: Opd },
    VCast { k: Cast, fw: u8, tw: u8, n: u16, d: u32, a: Opd },
    BitcastVec { from: Arc<Ty>, to: Arc<Ty>, d: u32, a: Opd },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: u8, ptr: bool },
    VSelect { d: u32, c: Opd, a: Opd, b: Opd, n: u16, w: u8 },
    Gep { d: u32, base: Opd, off: i64, terms: Box<[(Opd, u8, u64)]> },
    Load { d: u32, w: u8, p: Opd },
    LoadT { d: u32, t: Arc<Ty>, p: Opd },
    Store { w: u8, v: Opd, p: Opd },
    StoreT { t: Arc<Ty>, v: Opd, p: Opd },
    Alloca { d: u32, size: u64, align: u64 },
    Call(Box<CallInfo>),
    Br(Box<Edge>),
    CondBr { c: Opd, t: Box<Edge>, f: Box<Edge> },
    Switch { v: Opd, w: u8, cases: Box<[(u64, Edge)]>, map: Box<HashMap<u64, u32>>, def: Box<Edge> },
    Ret(Option<Opd>),
    Unreachable,
    Extract { d: u32, a: Opd, path: Box<[u32]> },
    Insert { d: u32, a: Opd, v: Opd, path: Box<[u32]>, t: Arc<Ty> },
    ExtractElt { d: u32, a: Opd, i: Opd },
    InsertElt { d: u32, a: Opd, v: Opd, i: Opd, n: u32 },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Box<[i32]>, n: u32 },
    Rmw { op: u8, w: u8, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u8, d: u32, p: Opd, old: Opd, new: Opd },
    Mov { d: u32, a: Opd },
    Nop,
    Bad(String),
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nargs: u32,
    pub argw: Vec<u16>,
    pub nregs: u32,
    pub ins: Vec<Ins>,
    pub bstart: Vec<u32>,
    pub bname: Vec<String>,
    pub kpool: Vec<CVal>,
    pub succ: Vec<Vec<u32>>,
    pub ipdom: OnceLock<Vec<u32>>, // NONE = exit, NONE-1 = cannot reach the exit
    pub block_of: Vec<u32>,        // per pc
    pub ret: Ty,
    pub rw: Vec<u16>, // register widths (0 = unknown or aggregate)
}

pub struct FuncDecl {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of "define ... }"
    pub cell: OnceLock<Box<Func>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u64>,
    pub ro: Vec<u8>,
    pub rw: Vec<u8>,
    pub named: HashMap<String, Ty>,
}

pub const CODE_BASE: u64 = 0x4000_0000;
pub const RO_BASE: u64 = 0x1_0000_0000;
pub const RW_BASE: u64 = 0x2_0000_0000;
pub const HEAP_BASE: u64 = 0x10_0000_0000;
pub const STACK_BASE: u64 = 0x20_0000_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(s: &'a str, m: &'a Module) -> Self {
        P { s: s.as_bytes(), i: 0, m }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
                self.i += 1
            }
            if !self.s[self.i..].starts_with(b"/*") {
                return;
            }
            while !self.s[self.i..].starts_with(b"*/") {
                self.i += 1
            }
            self.i += 2;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at {} in: {}", c as char, self.i, self.show());
        }
    }
    fn show(&self) -> String {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 80).min(self.s.len());
        format!("{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]))
    }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1
        }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.word_at();
        self.i += w.len();
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word_at() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn is_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.word_at();
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let v = self.tylist(b'}');
                Ty::Struct(false, v)
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Arc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.tylist(b'}');
                    self.expect(b'>');
                    return Ty::Struct(true, v);
                }
                let n: u32 = self.word().parse().unwrap();
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expect(b'>');
                Ty::Vec(n, Arc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.named.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eatw("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    _ if w.starts_with('i') && w.len() > 1 => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => panic!("type? {}", self.show()),
                    },
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ => panic!("type? '{}' {}", w, self.show()),
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// skip attribute words until a value or type starts
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_lowercase()) && c != b'#' {
                return;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.word_at();
            if is_const_word(w) || w.starts_with("f0x") || (c == b'c' && self.s.get(self.i + 1) == Some(&b'"')) {
                return;
            }
            if self.is_type() {
                return;
            }
            self.i += w.len();
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            } else if w == "align" || w == "dereferenceable" {
                self.word();
            }
        }
    }
    fn cstring(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn zero(t: &Ty) -> CVal {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => CVal::Agg((0..t.nfields()).map(|i| Self::zero(t.field(i))).collect()),
            Ty::Int(w) if *w > 64 => CVal::W(0, *w as u8),
            _ => CVal::I(0),
        }
    }
    fn konst(&mut self, t: &Ty) -> CVal {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                CVal::I(self.m.addr_of(&n))
            }
            b'{' | b'[' => {
                self.i += 1;
                let end = if c == b'{' { b'}' } else { b']' };
                self.aggc(end)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let r = self.aggc(b'}');
                    self.expect(b'>');
                    return r;
                }
                self.aggc(b'>')
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => CVal::Agg(self.cstring().into_iter().map(|b| CVal::I(b as u64)).collect()),
            b'+' | b'-' if self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_alphabetic()) => {
                let neg = c == b'-';
                self.i += 1;
                let w = self.word().to_string();
                let v = match &w[..] {
                    "inf" => f64::INFINITY,
                    "qnan" | "nan" | "snan" => {
                        if self.peek() == b'(' {
                            self.skip_parens();
                        }
                        f64::NAN
                    }
                    _ => panic!("float constant {}", w),
                };
                let v = if neg { -v } else { v };
                if *t == Ty::F32 {
                    CVal::I((v as f32).to_bits() as u64)
                } else {
                    CVal::I(v.to_bits())
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || self.s[self.i] == b'+' || (self.s[self.i] == b'-' && self.s[self.i - 1] == b'e')) {
                    self.i += 1
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match t {
                    Ty::F64 => CVal::I(if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { w.parse::<f64>().unwrap().to_bits() }),
                    Ty::F32 => CVal::I(if let Some(h) = w.strip_prefix("0x") { (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64 } else { w.parse::<f32>().unwrap().to_bits() as u64 }),
                    Ty::Int(n) if *n > 64 => {
                        let v = if w.starts_with('-') { w.parse::<i128>().unwrap() as u128 } else { w.parse::<u128>().unwrap() };
                        CVal::W(v & crate::expr::mask128(*n as u8), *n as u8)
                    }
                    _ => {
                        let v = if w.starts_with('-') { w.parse::<i128>().unwrap() as u64 } else { w.parse::<u128>().unwrap() as u64 };
                        CVal::I(v & crate::expr::mask(t.bits().clamp(1, 64) as u8))
                    }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => CVal::I(1),
                    "false" | "null" | "none" => {
                        if w == "null" || w == "false" {
                            CVal::I(0)
                        } else {
                            Self::zero(t)
                        }
                    }
                    "undef" | "poison" | "zeroinitializer" => Self::zero(t),
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.konst(&et);
                        self.expect(b')');
                        CVal::Agg(vec![v; t.nfields()])
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            if self.word().is_empty() {
                                panic!("gep {}", self.show());
                            }
                            // inrange(-16, 32)
                            let st = self.i;
                            if self.s[st - 1] == b'e' && self.peek() == b'(' && self.s[..st].ends_with(b"inrange") {
                                self.skip_parens();
                            }
                        }
                        self.expect(b'(');
                        let et = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.konst(&pt);
                        let mut off = 0i64;
                        let mut cur = et;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let iv = match self.konst(&it) {
                                CVal::I(v) => crate::expr::sx(v, it.bits() as u8),
                                _ => panic!(),
                            };
                            if first {
                                off += iv * cur.size() as i64;
                                first = false;
                            } else {
                                let (o, _) = match &cur {
                                    Ty::Struct(..) => (cur.layout().0[iv as usize] as i64, 0),
                                    _ => (iv * cur.field(0).size() as i64, 0),
                                };
                                off += o;
                                let idx = if matches!(cur, Ty::Struct(..)) { iv as usize } else { 0 };
                                cur = cur.field(idx).clone();
                            }
                        }
                        self.expect(b')');
                        match base {
                            CVal::I(b) => CVal::I(b.wrapping_add(off as u64)),
                            _ => panic!(),
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                        self.expect(b'(');
                        let ft = self.ty();
                        let v = self.konst(&ft);
                        assert!(self.eatw("to"));
                        let tt = self.ty();
                        self.expect(b')');
                        match v {
                            CVal::I(x) => CVal::I(x & crate::expr::mask(tt.bits().min(64) as u8)),
                            v => v,
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let t1 = self.ty();
                        let a = self.konst(&t1);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.konst(&t2);
                        self.expect(b')');
                        match (a, b) {
                            (CVal::I(a), CVal::I(b)) => CVal::I(
                                match w {
                                    "sub" => a.wrapping_sub(b),
                                    "add" => a.wrapping_add(b),
                                    _ => a ^ b,
                                } & crate::expr::mask(t1.bits() as u8),
                            ),
                            _ => panic!(),
                        }
                    }
                    // a float given by its bits
                    _ if w.starts_with("f0x") => CVal::I(u64::from_str_radix(&w[3..], 16).unwrap()),
                    _ => panic!("const? '{}' {}", w, self.show()),
                }
            }
        }
    }
    fn aggc(&mut self, end: u8) -> CVal {
        let mut v = vec![];
        if self.eat(end) {
            return CVal::Agg(v);
        }
        loop {
            let t = self.ty();
            v.push(self.konst(&t));
            if self.eat(end) {
                return CVal::Agg(v);
            }
            self.expect(b',');
        }
    }
}

fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "asm" | "addrspacecast"
    )
}

pub fn cval_bytes(t: &Ty, v: &CVal, out: &mut [u8]) {
    match (t, v) {
        (_, CVal::I(x)) => {
            let n = out.len().min(t.size() as usize).min(8);
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, CVal::W(x, _)) => {
            let n = out.len().min(16);
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, CVal::Agg(vs)) => {
            let (offs, _) = t.layout();
            for (i, v) in vs.iter().enumerate() {
                let ft = t.field(i);
                let o = offs[i] as usize;
                let sz = ft.size() as usize;
                cval_bytes(ft, v, &mut out[o..o + sz]);
            }
        }
    }
}

impl Module {
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.gmap.get(n) {
            return *a;
        }
        if let Some(f) = self.fmap.get(n) {
            return CODE_BASE + *f as u64 * 16;
        }
        if n == "__dso_handle" {
            return 0;
        }
        panic!("unknown symbol @{}", n)
    }
    pub fn func_at(&self, a: u64) -> Option<u32> {
        if a < CODE_BASE || (a - CODE_BASE) % 16 != 0 {
            return None;
        }
        let i = (a - CODE_BASE) / 16;
        if (i as usize) < self.funcs.len() {
            Some(i as u32)
        } else {
            None
        }
    }
    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), ro: vec![], rw: vec![], named: HashMap::new() };
        // pass 1: collect
        let mut gl: Vec<(String, String)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let mut types: Vec<(String, String)> = vec![];
        let bytes = text.as_bytes();
        let mut pos = 0;
        let n = bytes.len();
        while pos < n {
            let eol = bytes[pos..].iter().position(|c| *c == b'\n').map(|x| pos + x).unwrap_or(n);
            let line = &text[pos..eol];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let def = line.starts_with("define ");
                let at = line.find('@').unwrap();
                let name = {
                    let b = line.as_bytes();
                    if b[at + 1] == b'"' {
                        let e = line[at + 2..].find('"').unwrap();
                        line[at + 2..at + 2 + e].to_string()
                    } else {
                        let mut j = at + 1;
                        while is_id(b[j]) {
                            j += 1
                        }
                        line[at + 1..j].to_string()
                    }
                };
                let id = m.funcs.len() as u32;
                if def {
                    let end = text[pos..].find("\n}").unwrap() + pos;
                    m.funcs.push(FuncDecl { name: name.clone(), text: Some((pos, end)), cell: OnceLock::new() });
                    pos = end + 3;
                    m.fmap.insert(name, id);
                    continue;
                }
                m.funcs.push(FuncDecl { name: name.clone(), text: None, cell: OnceLock::new() });
                m.fmap.insert(name, id);
            } else if line.starts_with('@') {
                let (nm, rest) = line.split_once(" = ").unwrap();
                let nm = nm[1..].trim_matches('"').to_string();
                if rest.contains(" alias ") && !rest.contains("c\"") {
                    aliases.push((nm, rest.to_string()));
                } else {
                    gl.push((nm, rest.to_string()));
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let (nm, rest) = line.split_once(" = type ").unwrap();
                types.push((nm[1..].trim_matches('"').to_string(), rest.to_string()));
            }
            pos = eol + 1;
        }
        for _ in 0..2 {
            for (n, t) in &types {
                if t.starts_with("opaque") {
                    continue;
                }
                let ty = P::new(t, &m).ty();
                m.named.insert(n.clone(), ty);
            }
        }
        // pass 2: global types and addresses
        struct G {
            name: String,
            ty: Ty,
            init: Option<(usize, usize)>,
            src: String,
            konst: bool,
            addr: u64,
        }
        let mut gs = vec![];
        let (mut ro, mut rw) = (16u64, 16u64);
        for (name, rest) in gl {
            let mut p = P::new(&rest, &m);
            let mut external = false;
            let konst;
            loop {
                let w = p.word();
                match w {
                    "global" => {
                        konst = false;
                        break;
                    }
                    "constant" => {
                        konst = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "" => panic!("global? {}", rest),
                    _ => {
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                }
            }
            let ty = p.ty();
            let init = if external { None } else { Some((p.i, rest.len())) };
            let sz = ty.size().max(1);
            let al = {
                let mut a = ty.align().max(8);
                if let Some(k) = rest.rfind(", align ") {
                    let d: String = rest[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    a = a.max(d.parse().unwrap_or(1));
                }
                a
            };
            let cur = if konst { &mut ro } else { &mut rw };
            *cur = (*cur + al - 1) / al * al;
            let addr = if konst { RO_BASE } else { RW_BASE } + *cur;
            *cur += sz + 1;
            m.gmap.insert(name.clone(), addr);
            m.globals.push(Global { name: name.clone(), addr, size: sz, constant: konst });
            gs.push(G { name, ty, init, src: rest, konst, addr });
        }
        for (n, r) in aliases {
            let k = r.rfind('@').unwrap();
            let tgt: String = r[k + 1..].chars().take_while(|c| is_id(*c as u8)).collect();
            if let Some(a) = m.gmap.get(&tgt).copied() {
                m.gmap.insert(n, a);
            } else if let Some(f) = m.fmap.get(&tgt).copied() {
                m.fmap.insert(n, f);
            }
        }
        let mut robuf = vec![0u8; ro as usize + 64];
        let mut rwbuf = vec![0u8; rw as usize + 64];
        for g in &gs {
            if let Some((a, b)) = g.init {
                let v = P::new(&g.src[a..b], &m).konst(&g.ty);
                let buf = if g.konst { &mut robuf } else { &mut rwbuf };
                let o = (g.addr - if g.konst { RO_BASE } else { RW_BASE }) as usize;
                let sz = g.ty.size() as usize;
                cval_bytes(&g.ty, &v, &mut buf[o..o + sz]);
            }
            let _ = &g.name;
        }
        m.ro = robuf;
        m.rw = rwbuf;
        m.text = text;
        m
    }

    pub fn func(&self, id: u32) -> Option<&Func> {
        let d = &self.funcs[id as usize];
        let (a, b) = d.text?;
        Some(d.cell.get_or_init(|| Box::new(compile(self, id, &self.text[a..b]))))
    }
}

struct Comp<'m> {
    regs: HashMap<String, u32>,
    nregs: u32,
    kpool: Vec<CVal>,
    m: &'m Module,
}

impl<'m> Comp<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, p: &mut P, t: &Ty) -> Opd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opd::R(self.reg(&n));
        }
        match p.konst(t) {
            CVal::I(v) => Opd::I(v),
            k => {
                self.kpool.push(k);
                Opd::K(self.kpool.len() as u32 - 1)
            }
        }
    }
    fn tv(&mut self, p: &mut P) -> (Ty, Opd) {
        let t = p.ty();
        p.skip_attrs();
        let o = self.opd(p, &t);
        (t, o)
    }
}

fn label(p: &mut P) -> String {
    p.eatw("label");
    p.expect(b'%');
    p.name()
}

fn compile(m: &Module, id: u32, text: &str) -> Func {
    let mut lines: Vec<(u32, String)> = vec![];
    for (ln, l) in text.split('\n').enumerate() {
        if l.trim().is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg_") {
            continue;
        }
        let tl = l.trim_start();
        let cont = lines.len() > 1 && (tl.starts_with("to label") || tl.starts_with("catch ") || tl.starts_with("cleanup") || tl.starts_with("filter ") || tl == "]" || lines.last().map_or(false, |x| x.1.trim_start().starts_with("switch ") && !x.1.contains(']')));
        if cont {
            let last = lines.last_mut().unwrap();
            last.1.push(' ');
            last.1.push_str(tl);
        } else {
            lines.push((ln as u32, l.to_string()));
        }
    }
    let mut c = Comp { regs: HashMap::new(), nregs: 0, kpool: vec![], m };
    // header
    let hdr = lines[0].1.clone();
    let at = hdr.find('@').unwrap();
    let mut p = P::new(&hdr, m);
    // return type is right before @name : re-parse from start
    p.eatw("define");
    let mut ret = Ty::Void;
    while p.i < at {
        if p.is_type() {
            ret = p.ty();
            break;
        }
        let w = p.word();
        if w.is_empty() {
            panic!("hdr {}", hdr);
        }
        if p.i < p.s.len() && p.s[p.i] == b'(' {
            p.skip_parens();
        } else if w == "align" {
            p.word();
        }
    }
    p.i = at + 1;
    let name = p.name();
    p.expect(b'(');
    let mut nargs = 0u32;
    let mut argw = vec![];
    let mut unnamed = 0u32;
    if !p.eat(b')') {
        loop {
            if p.peek() == b'.' {
                p.i += 3;
                p.expect(b')');
                break;
            }
            let t = p.ty();
            p.skip_attrs();
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = c.reg(&n);
                debug_assert_eq!(r, nargs);
            } else {
                let r = c.reg(&format!("{}", unnamed));
                debug_assert_eq!(r, nargs);
                unnamed += 1;
            }
            argw.push(t.bits());
            nargs += 1;
            if p.eat(b')') {
                break;
            }
            p.expect(b',');
        }
    }
    // blocks
    let mut blocks: Vec<(String, Vec<(u32, String)>)> = vec![];
    for (ln, l) in lines.into_iter().skip(1) {
        let is_label = !l.starts_with(' ');
        if is_label {
            let mut lp = P::new(&l, m);
            let n = lp.name();
            blocks.push((n, vec![]));
        } else {
            if blocks.is_empty() {
                blocks.push((format!("{}", unnamed), vec![]));
            }
            blocks.last_mut().unwrap().1.push((ln, l));
        }
    }
    let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
    // phis
    let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = vec![vec![]; blocks.len()];
    let mut phiw: Vec<(u32, u16)> = vec![];
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        for (_, l) in ls {
            let t = l.trim_start();
            if let Some(k) = t.find(" = phi ") {
                let d = c.reg(t[1..k].trim_matches('"'));
                let rest = t[k + 7..].to_string();
                let mut p = P::new(&rest, m);
                while !p.is_type() {
                    p.word();
                }
                let ty = p.ty();
                phiw.push((d, ty.bits()));
                let mut inc = vec![];
                loop {
                    if p.peek() != b'[' {
                        break;
                    }
                    p.expect(b'[');
                    let o = c.opd(&mut p, &ty);
                    p.expect(b',');
                    p.expect(b'%');
                    let b = p.name();
                    p.expect(b']');
                    inc.push((o, bidx[&b]));
                    if !p.eat(b',') {
                        break;
                    }
                }
                phis[bi].push((d, inc));
            } else {
                break;
            }
        }
    }
    let mut ins: Vec<Ins> = vec![];
    let mut bstart = vec![];
    let mut succ: Vec<Vec<u32>> = vec![vec![]; blocks.len()];
    let mut block_of = vec![];
    let mk_edge = |from: u32, to: &str| -> Edge {
        let b = *bidx.get(to).unwrap_or_else(|| panic!("no block {} in {}", to, name));
        let mut mv = vec![];
        for (d, inc) in &phis[b as usize] {
            let o = inc.iter().find(|x| x.1 == from).unwrap_or_else(|| panic!("phi in {} for {}", to, from)).0;
            mv.push((*d, o));
        }
        let conflict = mv.iter().enumerate().any(|(i, (d, _))| mv[i + 1..].iter().any(|(_, o)| matches!(o, Opd::R(r) if r == d)));
        Edge { pc: 0, block: b, conflict, moves: mv.into_boxed_slice() }
    };
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        bstart.push(ins.len() as u32);
        let bi = bi as u32;
        for (ln, l) in ls {
            let t = l.trim_start();
            if t.contains(" = phi ") && t.starts_with('%') {
                continue;
            }
            let before = ins.len();
            let r = parse_ins(&mut c, t, *ln, bi, &mk_edge, &mut succ);
            ins.push(r);
            debug_assert_eq!(before + 1, ins.len());
        }
    }
    for (bi, s) in bstart.iter().enumerate() {
        let e = bstart.get(bi + 1).copied().unwrap_or(ins.len() as u32);
        for _ in *s..e {
            block_of.push(bi as u32);
        }
    }
    let fix = |e: &mut Edge| e.pc = bstart[e.block as usize];
    for i in ins.iter_mut() {
        match i {
            Ins::Br(e) => fix(e),
            Ins::CondBr { t, f, .. } => {
                fix(t);
                fix(f)
            }
            Ins::Switch { cases, def, .. } => {
                cases.iter_mut().for_each(|x| fix(&mut x.1));
                fix(def)
            }
            Ins::Call(ci) => {
                if let Some(e) = &mut ci.normal {
                    fix(e)
                }
            }
            _ => {}
        }
    }
    let mut rw = vec![0u16; c.nregs as usize];
    for (i, w) in argw.iter().enumerate() {
        rw[i] = *w;
    }
    for (d, w) in phiw {
        rw[d as usize] = w;
    }
    for i in &ins {
        let (d, w) = def_width(i);
        if d != NONE && w > 0 {
            rw[d as usize] = w;
        }
    }
    Func {
        rw,
        id,
        name,
        nargs,
        argw,
        nregs: c.nregs,
        ins,
        bstart,
        bname: blocks.into_iter().map(|b| b.0).collect(),
        kpool: c.kpool,
        succ,
        ipdom: OnceLock::new(),
        block_of,
        ret,
    }
}

fn parse_ins(c: &mut Comp, t: &str, ln: u32, bi: u32, mk_edge: &dyn Fn(u32, &str) -> Edge, succ: &mut Vec<Vec<u32>>) -> Ins {
    use crate::expr::Op;
    let m = c.m;
    let mut d = NONE;
    let mut body = t;
    if t.starts_with('%') {
        let k = t.find(" = ").unwrap();
        d = c.reg(t[1..k].trim_matches('"'));
        body = &t[k + 3..];
    }
    let mut p = P::new(body, m);
    let mut op = p.word();
    while matches!(op, "tail" | "musttail" | "notail") {
        op = p.word();
    }
    let vecinfo = |t: &Ty| -> (u16, u8) {
        match t {
            Ty::Vec(n, e) => (*n as u16, e.bits() as u8),
            t => (0, t.bits() as u8),
        }
    };
    match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            while !p.is_type() {
                p.word();
            }
            let ty = p.ty();
            let a = c.opd(&mut p, &ty);
            p.expect(b',');
            let b = c.opd(&mut p, &ty);
            let o = match op {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                _ => Op::AShr,
            };
            let (n, w) = vecinfo(&ty);
            if n > 0 {
                Ins::VBin { op: o, w, n, d, a, b }
            } else {
                Ins::Bin { op: o, w, d, a, b }
            }
        }
        "icmp" => {
            p.eatw("samesign");
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => panic!("icmp {}", x),
            };
            let ty = p.ty();
            let a = c.opd(&mut p, &ty);
            p.expect(b',');
            let b = c.opd(&mut p, &ty);
            let (n, w) = vecinfo(&ty);
            if n > 0 {
                Ins::VIcmp { p: pr, w, n, d, a, b }
            } else {
                Ins::Icmp { p: pr, w, d, a, b }
            }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while !p.is_type() {
                p.word();
            }
            let ty = p.ty();
            let a = c.opd(&mut p, &ty);
            p.expect(b',');
            let b = c.opd(&mut p, &ty);
            if !ty.is_scalar() {
                return Ins::Bad(t.to_string());
            }
            Ins::FBin { op: match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 }, w: ty.bits() as u8, d, a, b }
        }
        "fneg" => {
            while !p.is_type() {
                p.word();
            }
            let ty = p.ty();
            let a = c.opd(&mut p, &ty);
            Ins::FNeg { w: ty.bits() as u8, d, a }
        }
        "fcmp" => {
            let mut pr = p.word();
            while matches!(pr, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                pr = p.word();
            }
            // bits: 1 eq, 2 gt, 4 lt, 8 unordered
            let code = match pr {
                "oeq" => 1,
                "ogt" => 2,
                "oge" => 3,
                "olt" => 4,
                "ole" => 5,
                "one" => 6,
                "ord" => 7,
                "uno" => 8,
                "ueq" => 9,
                "ugt" => 10,
                "uge" => 11,
                "ult" => 12,
                "ule" => 13,
                "une" => 14,
                "true" => 15,
                _ => 0,
            };
            let ty = p.ty();
            let a = c.opd(&mut p, &ty);
            p.expect(b',');
            let b = c.opd(&mut p, &ty);
            if !ty.is_scalar() {
                return Ins::Bad(t.to_string());
            }
            Ins::FCmp { p: code, w: ty.bits() as u8, d, a, b }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
            while !p.is_type() {
                p.word();
            }
            let ft = p.ty();
            let a = c.opd(&mut p, &ft);
            assert!(p.eatw("to"));
            let tt = p.ty();
            let (n, fw) = vecinfo(&ft);
            let (_, tw) = vecinfo(&tt);
            let k = match op {
                "trunc" => Cast::Trunc,
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "inttoptr" | "ptrtoint" | "ptrtoaddr" => {
                    if fw > tw {
                        Cast::Trunc
                    } else if fw < tw {
                        Cast::Zext
                    } else {
                        Cast::Bit
                    }
                }
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                _ => Cast::Bit,
            };
            if op == "bitcast" && (!ft.is_scalar() || !tt.is_scalar()) {
                return Ins::BitcastVec { from: Arc::new(ft), to: Arc::new(tt), d, a };
            }
            if n > 0 {
                Ins::VCast { k, fw, tw, n, d, a }
            } else {
                Ins::Cast { k, fw, tw, d, a }
            }
        }
        "select" => {
            while !p.is_type() {
                p.word();
            }
            let (ct, cc) = c.tv(&mut p);
            p.expect(b',');
            let (ty, a) = c.tv(&mut p);
            p.expect(b',');
            let (_, b) = c.tv(&mut p);
            if let Ty::Vec(n, e) = &ct {
                let _ = e;
                let w = vecinfo(&ty).1;
                return Ins::VSelect { d, c: cc, a, b, n: *n as u16, w };
            }
            Ins::Select { d, c: cc, a, b, w: if ty.is_scalar() { ty.bits() as u8 } else { 0 }, ptr: ty == Ty::Ptr }
        }
        "getelementptr" => {
            while !p.is_type() {
                let w = p.word();
                if w.is_empty() {
                    panic!("gep {}", t);
                }
                if p.peek() == b'(' {
                    p.skip_parens();
                }
            }
            let et = p.ty();
            p.expect(b',');
            let (bt, base) = c.tv(&mut p);
            if bt != Ty::Ptr {
                return Ins::Bad(t.to_string());
            }
            let mut off = 0i64;
            let mut terms = vec![];
            let mut cur = et;
            let mut first = true;
            while p.peek() == b',' {
                p.expect(b',');
                if p.peek() == b'!' {
                    break;
                }
                let (it, iv) = c.tv(&mut p);
                let scale;
                if first {
                    scale = cur.size();
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let i = match iv {
                                Opd::I(i) => i as usize,
                                _ => panic!(),
                            };
                            off += cur.layout().0[i] as i64;
                            cur = cur.field(i).clone();
                            continue;
                        }
                        _ => {
                            let e = cur.field(0).clone();
                            scale = e.size();
                            cur = e;
                        }
                    }
                }
                match iv {
                    Opd::I(v) => off += crate::expr::sx(v, it.bits() as u8).wrapping_mul(scale as i64),
                    o => terms.push((o, it.bits() as u8, scale)),
                }
            }
            Ins::Gep { d, base, off, terms: terms.into_boxed_slice() }
        }
        "load" => {
            p.eatw("atomic");
            p.eatw("volatile");
            let ty = p.ty();
            p.expect(b',');
            let (_, a) = c.tv(&mut p);
            if ty.is_scalar() && ty.bits() <= 128 {
                Ins::Load { d, w: ty.bits() as u8, p: a }
            } else {
                Ins::LoadT { d, t: Arc::new(ty), p: a }
            }
        }
        "store" => {
            p.eatw("atomic");
            p.eatw("volatile");
            let (ty, v) = c.tv(&mut p);
            p.expect(b',');
            let (_, a) = c.tv(&mut p);
            if ty.is_scalar() && ty.bits() <= 128 {
                Ins::Store { w: ty.bits() as u8, v, p: a }
            } else {
                Ins::StoreT { t: Arc::new(ty), v, p: a }
            }
        }
        "alloca" => {
            p.eatw("inalloca");
            let ty = p.ty();
            let mut size = ty.size();
            let mut align = ty.align().max(8);
            while p.eat(b',') {
                if p.eatw("align") {
                    align = p.word().parse().unwrap();
                } else if p.peek() == b'!' {
                    break;
                } else {
                    let (_, n) = c.tv(&mut p);
                    match n {
                        Opd::I(n) => size *= n,
                        _ => return Ins::Bad(t.to_string()),
                    }
                }
            }
            Ins::Alloca { d, size, align }
        }
        "call" | "invoke" => {
            // attrs until type
            loop {
                if p.is_type() {
                    break;
                }
                let w = p.word();
                if w.is_empty() {
                    panic!("call? {}", t);
                }
                if p.i < p.s.len() && p.s[p.i] == b'(' {
                    p.skip_parens();
                } else if w == "align" {
                    p.word();
                }
            }
            let ret = p.ty();
            if p.peek() == b'(' {
                p.skip_parens();
            }
            let callee = match p.peek() {
                b'@' => {
                    p.i += 1;
                    let n = p.name();
                    match m.fmap.get(&n) {
                        Some(f) => Callee::Direct(*f),
                        None => return Ins::Bad(t.to_string()),
                    }
                }
                b'%' => {
                    p.i += 1;
                    let n = p.name();
                    Callee::Indirect(Opd::R(c.reg(&n)))
                }
                _ => {
                    if p.word_at() == "asm" {
                        // skip to the last "(...)": find closing quote then paren
                        while p.peek() != b'(' {
                            if p.peek() == b'"' {
                                p.i += 1;
                                while p.s[p.i] != b'"' {
                                    p.i += 1
                                }
                            }
                            p.i += 1;
                        }
                        Callee::Asm
                    } else {
                        let k = p.konst(&Ty::Ptr);
                        match k {
                            CVal::I(a) => match m.func_at(a) {
                                Some(f) => Callee::Direct(f),
                                None => Callee::Indirect(Opd::I(a)),
                            },
                            _ => panic!(),
                        }
                    }
                }
            };
            p.expect(b'(');
            let mut args = vec![];
            let mut argw = vec![];
            if !p.eat(b')') {
                loop {
                    let ty = p.ty();
                    if ty == Ty::Other {
                        // metadata or label argument: ignore the whole call
                        return Ins::Nop;
                    }
                    p.skip_attrs();
                    let o = c.opd(&mut p, &ty);
                    args.push(o);
                    argw.push(ty.bits());
                    if p.eat(b')') {
                        break;
                    }
                    p.expect(b',');
                }
            }
            let mut normal = None;
            if op == "invoke" {
                let k = body.find(" to label ").unwrap();
                p.i = k + 4;
                let l = label(&mut p);
                let e = mk_edge(bi, &l);
                succ[bi as usize].push(e.block);
                normal = Some(e);
            }
            Ins::Call(Box::new(CallInfo { callee, args: args.into(), argw: argw.into(), ret, dst: d, line: ln, normal }))
        }
        "br" => {
            if p.word_at() == "label" {
                let l = label(&mut p);
                let e = mk_edge(bi, &l);
                succ[bi as usize].push(e.block);
                Ins::Br(Box::new(e))
            } else {
                let (_, cc) = c.tv(&mut p);
                p.expect(b',');
                let a = label(&mut p);
                p.expect(b',');
                let b = label(&mut p);
                let (e1, e2) = (mk_edge(bi, &a), mk_edge(bi, &b));
                succ[bi as usize].push(e1.block);
                succ[bi as usize].push(e2.block);
                Ins::CondBr { c: cc, t: Box::new(e1), f: Box::new(e2) }
            }
        }
        "switch" => {
            let (ty, v) = c.tv(&mut p);
            p.expect(b',');
            let l = label(&mut p);
            let def = mk_edge(bi, &l);
            succ[bi as usize].push(def.block);
            p.expect(b'[');
            let mut cases = vec![];
            let mut map = HashMap::new();
            while !p.eat(b']') {
                let ct = p.ty();
                let k = match p.konst(&ct) {
                    CVal::I(k) => k,
                    _ => panic!(),
                };
                p.expect(b',');
                let l = label(&mut p);
                let e = mk_edge(bi, &l);
                succ[bi as usize].push(e.block);
                map.insert(k, cases.len() as u32);
                cases.push((k, e));
            }
            Ins::Switch { v, w: ty.bits() as u8, cases: cases.into(), map: Box::new(map), def: Box::new(def) }
        }
        "ret" => {
            if p.eatw("void") {
                Ins::Ret(None)
            } else {
                let (_, v) = c.tv(&mut p);
                Ins::Ret(Some(v))
            }
        }
        "unreachable" => Ins::Unreachable,
        "extractvalue" | "insertvalue" => {
            let (ty, a) = c.tv(&mut p);
            p.expect(b',');
            let mut v = None;
            if op == "insertvalue" {
                v = Some(c.tv(&mut p).1);
                p.expect(b',');
            }
            let mut path = vec![];
            loop {
                if p.peek() == b'!' {
                    break;
                }
                path.push(p.word().parse::<u32>().unwrap());
                if !p.eat(b',') {
                    break;
                }
            }
            match v {
                None => Ins::Extract { d, a, path: path.into() },
                Some(v) => Ins::Insert { d, a, v, path: path.into(), t: Arc::new(ty) },
            }
        }
        "extractelement" => {
            let (_, a) = c.tv(&mut p);
            p.expect(b',');
            let (_, i) = c.tv(&mut p);
            Ins::ExtractElt { d, a, i }
        }
        "insertelement" => {
            let (ty, a) = c.tv(&mut p);
            p.expect(b',');
            let (_, v) = c.tv(&mut p);
            p.expect(b',');
            let (_, i) = c.tv(&mut p);
            Ins::InsertElt { d, a, v, i, n: ty.nfields() as u32 }
        }
        "shufflevector" => {
            let (ty, a) = c.tv(&mut p);
            p.expect(b',');
            let (_, b) = c.tv(&mut p);
            p.expect(b',');
            let mt = p.ty();
            let k = p.konst(&mt);
            let mask = match k {
                CVal::Agg(v) => v
                    .iter()
                    .map(|x| match x {
                        CVal::I(i) => *i as i32,
                        _ => 0,
                    })
                    .collect(),
                _ => vec![],
            };
            Ins::Shuffle { d, a, b, mask: mask.into(), n: ty.nfields() as u32 }
        }
        "atomicrmw" => {
            p.eatw("volatile");
            let k = match p.word() {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                "umax" => 6,
                "umin" => 7,
                _ => return Ins::Bad(t.to_string()),
            };
            let (_, a) = c.tv(&mut p);
            p.expect(b',');
            let (ty, v) = c.tv(&mut p);
            Ins::Rmw { op: k, w: ty.bits() as u8, d, p: a, v }
        }
        "cmpxchg" => {
            p.eatw("weak");
            p.eatw("volatile");
            let (_, a) = c.tv(&mut p);
            p.expect(b',');
            let (ty, old) = c.tv(&mut p);
            p.expect(b',');
            let (_, new) = c.tv(&mut p);
            Ins::CmpXchg { w: ty.bits() as u8, d, p: a, old, new }
        }
        "fence" => Ins::Nop,
        "freeze" => {
            let (_, a) = c.tv(&mut p);
            Ins::Mov { d, a }
        }
        _ => Ins::Bad(t.to_string()),
    }
}

impl Func {
    /// immediate post-dominator block of each block (NONE = function exit)
    pub fn ipdoms(&self) -> &Vec<u32> {
        self.ipdom.get_or_init(|| {
            let n = self.bstart.len();
            let exit = n;
            let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
            let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
            for b in 0..n {
                let last = self.bstart.get(b + 1).copied().unwrap_or(self.ins.len() as u32) as usize - 1;
                if matches!(self.ins[last], Ins::Ret(_)) {
                    succ[b].push(exit);
                    pred[exit].push(b);
                }
                for &s in &self.succ[b] {
                    succ[b].push(s as usize);
                    pred[s as usize].push(b);
                }
            }
            // nodes that reach exit, in reverse post-order on the reversed graph
            let mut order = vec![];
            let mut seen = vec![false; n + 1];
            let mut st = vec![(exit, 0usize)];
            seen[exit] = true;
            while let Some((x, i)) = st.pop() {
                if i < pred[x].len() {
                    st.push((x, i + 1));
                    let y = pred[x][i];
                    if !seen[y] {
                        seen[y] = true;
                        st.push((y, 0));
                    }
                } else {
                    order.push(x);
                }
            }
            order.reverse();
            let mut num = vec![usize::MAX; n + 1];
            for (i, x) in order.iter().enumerate() {
                num[*x] = i;
            }
            let mut idom = vec![usize::MAX; n + 1];
            idom[exit] = exit;
            let mut changed = true;
            while changed {
                changed = false;
                for &x in order.iter().skip(1) {
                    let mut ni = usize::MAX;
                    for &s in &succ[x] {
                        if !seen[s] || idom[s] == usize::MAX {
                            continue;
                        }
                        if ni == usize::MAX {
                            ni = s;
                        } else {
                            let (mut a, mut b) = (s, ni);
                            while a != b {
                                while num[a] > num[b] {
                                    a = idom[a]
                                }
                                while num[b] > num[a] {
                                    b = idom[b]
                                }
                            }
                            ni = a;
                        }
                    }
                    if ni != usize::MAX && idom[x] != ni {
                        idom[x] = ni;
                        changed = true;
                    }
                }
            }
            (0..n)
                .map(|b| {
                    if !seen[b] || idom[b] == usize::MAX {
                        NONE - 1
                    } else if idom[b] == exit {
                        NONE
                    } else {
                        idom[b] as u32
                    }
                })
                .collect()
        })
    }
}

impl Func {
    pub fn regw(&self) -> &Vec<u16> {
        &self.rw
    }
}

fn def_width(i: &Ins) -> (u32, u16) {
    match i {
        Ins::Bin { w, d, .. } | Ins::FBin { w, d, .. } | Ins::FNeg { w, d, .. } | Ins::Load { w, d, .. } | Ins::Select { w, d, .. } | Ins::Rmw { w, d, .. } => (*d, *w as u16),
        Ins::Icmp { d, .. } | Ins::FCmp { d, .. } => (*d, 1),
        Ins::Cast { d, tw, .. } => (*d, *tw as u16),
        Ins::Gep { d, .. } | Ins::Alloca { d, .. } => (*d, 64),
        Ins::Call(c) => (c.dst, c.ret.bits()),
        _ => (NONE, 0),
    }
}

/// operands used, edges, and the register defined
pub fn ins_info<'a>(i: &'a Ins, u: &mut Vec<Opd>, e: &mut Vec<&'a Edge>) -> u32 {
    match i {
        Ins::Bin { d, a, b, .. } | Ins::VBin { d, a, b, .. } | Ins::Icmp { d, a, b, .. } | Ins::VIcmp { d, a, b, .. } | Ins::FBin { d, a, b, .. } | Ins::FCmp { d, a, b, .. } | Ins::Shuffle { d, a, b, .. } => {
            u.extend([*a, *b]);
            *d
        }
        Ins::FNeg { d, a, .. } | Ins::Cast { d, a, .. } | Ins::VCast { d, a, .. } | Ins::BitcastVec { d, a, .. } | Ins::Extract { d, a, .. } | Ins::Mov { d, a } => {
            u.push(*a);
            *d
        }
        Ins::Select { d, c, a, b, .. } | Ins::VSelect { d, c, a, b, .. } => {
            u.extend([*a, *b, *c]);
            *d
        }
        Ins::Gep { d, base, terms, .. } => {
            u.push(*base);
            u.extend(terms.iter().map(|t| t.0));
            *d
        }
        Ins::Load { d, p, .. } | Ins::LoadT { d, p, .. } => {
            u.push(*p);
            *d
        }
        Ins::Store { v, p, .. } | Ins::StoreT { v, p, .. } => {
            u.extend([*v, *p]);
            NONE
        }
        Ins::Alloca { d, .. } => *d,
        Ins::Call(c) => {
            if let Callee::Indirect(o) = &c.callee {
                u.push(*o);
            }
            u.extend(c.args.iter().copied());
            if let Some(n) = &c.normal {
                e.push(n);
                // the result is defined before the edge is taken: handled conservatively
            }
            c.dst
        }
        Ins::Br(x) => {
            e.push(x);
            NONE
        }
        Ins::CondBr { c, t, f } => {
            u.push(*c);
            e.extend([&**t, &**f]);
            NONE
        }
        Ins::Switch { v, cases, def, .. } => {
            u.push(*v);
            e.push(def);
            e.extend(cases.iter().map(|c| &c.1));
            NONE
        }
        Ins::Ret(o) => {
            if let Some(o) = o {
                u.push(*o);
            }
            NONE
        }
        Ins::Insert { d, a, v, .. } => {
            u.extend([*a, *v]);
            *d
        }
        Ins::ExtractElt { d, a, i } => {
            u.extend([*a, *i]);
            *d
        }
        Ins::InsertElt { d, a, v, i, .. } => {
            u.extend([*a, *v, *i]);
            *d
        }
        Ins::Rmw { d, p, v, .. } => {
            u.extend([*p, *v]);
            *d
        }
        Ins::CmpXchg { d, p, old, new, .. } => {
            u.extend([*p, *old, *new]);
            *d
        }
        Ins::Unreachable | Ins::Nop | Ins::Bad(_) => NONE,
    }
}
