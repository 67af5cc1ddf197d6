//! Parser for the textual LLVM IR that rustc/llvm-dis emit (LLVM 23, opaque pointers).
//! Produces a decoded module: constants are folded, globals and functions get
//! concrete addresses, every SSA name becomes a register index.
use std::collections::HashMap;
use std::sync::Arc;

pub const OBJ_SHIFT: u64 = 32;
pub const OBJ_BASE: u64 = 0x1000_0000;
/// functions live in object slot 1
pub const FN_SLOT: u64 = 1;
pub fn obj_addr(slot: u64) -> u64 { (slot << OBJ_SHIFT) + OBJ_BASE }
pub fn fn_addr(idx: usize) -> u64 { obj_addr(FN_SLOT) + (idx as u64) * 16 }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Label,
    Meta,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => ((n * t.bits() as u64) + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    /// width in bits of a scalar (or of a vector as a flat bit string)
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => (*n as u32) * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_vec(&self) -> bool { matches!(self, Ty::Vec(..)) }
    pub fn elem(&self) -> &Ty {
        match self { Ty::Vec(_, t) | Ty::Arr(_, t) => t, _ => self }
    }
}

#[derive(Clone, Debug)]
pub enum Cv {
    I(u128),
    Agg(Arc<Vec<Cv>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(Val),
}

/// Run-time value: concrete integer of at most 64 bits, concrete wide integer,
/// symbolic bit-vector, or aggregate/vector.
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    B(Arc<u128>),
    S(crate::expr::E),
    A(Arc<Vec<Val>>),
}
impl Val {
    pub fn int(v: u128, w: u32) -> Val { if w <= 64 { Val::I(v as u64) } else { Val::B(Arc::new(v)) } }
}
fn cv_val(c: &Cv, ty: &Ty) -> Val {
    match (c, ty) {
        (Cv::Agg(v), Ty::Struct(f, _)) => Val::A(Arc::new(v.iter().zip(f.iter()).map(|(x, t)| cv_val(x, t)).collect())),
        (Cv::Agg(v), _) => Val::A(Arc::new(v.iter().map(|x| cv_val(x, ty.elem())).collect())),
        (Cv::I(x), Ty::Void | Ty::Opaque | Ty::Meta | Ty::Label) => Val::I(*x as u64),
        (Cv::I(x), _) => Val::int(*x, ty.bits()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bitcast, Same, FpExt, FpTrunc, UiToFp, SiToFp, FpToUi, FpToSi }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(Op), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, count: Op },
    Load { dst: u32, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    /// base + const + sum(idx * scale) ; idx sign-extended from width
    Gep { dst: u32, base: Op, off: u64, idx: Vec<(Op, u32, u64)> },
    Bin { dst: u32, op: Bin, ty: Ty, a: Op, b: Op },
    Cmp { dst: u32, op: Cmp, ty: Ty, a: Op, b: Op },
    FCmp { dst: u32, pred: String, ty: Ty, a: Op, b: Op },
    FNeg { dst: u32, ty: Ty, a: Op },
    Cast { dst: u32, op: Cast, from: Ty, to: Ty, a: Op },
    Select { dst: u32, cty: Ty, ty: Ty, c: Op, a: Op, b: Op },
    Extract { dst: u32, a: Op, idx: Vec<u32> },
    Insert { dst: u32, aty: Ty, a: Op, v: Op, idx: Vec<u32> },
    ExtractElem { dst: u32, a: Op, i: Op },
    InsertElem { dst: u32, aty: Ty, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, ty: Ty, a: Op, b: Op, mask: Vec<i64> },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32> },
    Rmw { dst: u32, op: String, ty: Ty, ptr: Op, val: Op },
    CmpXchg { dst: u32, ty: Ty, ptr: Op, cmp: Op, new: Op },
    Nop,
    // terminators
    Br { to: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, default: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<Op> },
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Op)> }

#[derive(Clone, Debug, Default)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }

#[derive(Clone, Debug)]
pub struct Function {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub declared: bool,
    pub idx: usize,
}

#[derive(Clone, Debug)]
pub struct Global { pub name: String, pub slot: u64, pub data: Vec<u8>, pub align: u64, pub is_const: bool }

pub struct Module {
    pub funcs: Vec<Function>,
    pub fn_by_name: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub global_by_name: HashMap<String, usize>,
    pub nslots: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Nl,
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta(String),
    Attr,
    Dots,
    Eof,
}

fn lex(src: &[u8]) -> Vec<T> {
    let mut v = Vec::with_capacity(src.len() / 3);
    let n = src.len();
    let mut i = 0;
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < n {
        let c = src[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b'\n' => {
                if v.last() != Some(&T::Nl) { v.push(T::Nl); }
                i += 1;
            }
            b';' => while i < n && src[i] != b'\n' { i += 1 },
            b'%' | b'@' => {
                i += 1;
                let name;
                if src[i] == b'"' {
                    let (s, j) = lex_str(src, i);
                    i = j;
                    name = String::from_utf8_lossy(&s).to_string();
                } else {
                    let st = i;
                    while i < n && isid(src[i]) { i += 1; }
                    name = String::from_utf8_lossy(&src[st..i]).to_string();
                }
                v.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
            }
            b'"' => {
                let (s, j) = lex_str(src, i);
                i = j;
                v.push(T::Str(s));
            }
            b'!' => {
                i += 1;
                let st = i;
                if i < n && src[i] == b'"' {
                    let (_, j) = lex_str(src, i);
                    i = j;
                    v.push(T::Meta("str".into()));
                } else {
                    while i < n && (isid(src[i]) || src[i] == b'\\') { i += 1; }
                    v.push(T::Meta(String::from_utf8_lossy(&src[st..i]).to_string()));
                }
            }
            b'#' => {
                i += 1;
                while i < n && src[i].is_ascii_digit() { i += 1; }
                v.push(T::Attr);
            }
            b'.' if i + 2 < n && src[i + 1] == b'.' && src[i + 2] == b'.' => {
                i += 3;
                v.push(T::Dots);
            }
            b'c' if i + 1 < n && src[i + 1] == b'"' => {
                let (s, j) = lex_str(src, i + 1);
                i = j;
                v.push(T::CStr(s));
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < n && src[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < n && (src[i].is_ascii_alphanumeric() || src[i] == b'.' || ((src[i] == b'+' || src[i] == b'-') && src[i - 1] == b'e' )) { i += 1; }
                v.push(T::Num(String::from_utf8_lossy(&src[st..i]).to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                while i < n && isid(src[i]) { i += 1; }
                v.push(T::Word(String::from_utf8_lossy(&src[st..i]).to_string()));
            }
            _ => {
                v.push(T::P(c as char));
                i += 1;
            }
        }
    }
    v.push(T::Nl);
    v.push(T::Eof);
    v
}

fn lex_str(src: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    // at the opening quote
    i += 1;
    let mut out = Vec::new();
    while src[i] != b'"' {
        if src[i] == b'\\' {
            if src[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&src[i + 1..i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            out.push(src[i]);
            i += 1;
        }
    }
    (out, i + 1)
}

struct P<'a> {
    t: &'a [T],
    i: usize,
    types: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) { return *r; }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

fn mask(v: u128, w: u32) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }

impl<'a> P<'a> {
    fn peek(&self) -> &T { &self.t[self.i] }
    fn next(&mut self) -> T { let t = self.t[self.i].clone(); self.i += 1; t }
    fn is_p(&self, c: char) -> bool { matches!(self.peek(), T::P(x) if *x == c) }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), T::Word(x) if x == w) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn exp_p(&mut self, c: char) { if !self.eat_p(c) { self.die(&format!("expected '{}'", c)); } }
    fn exp_w(&mut self, w: &str) { if !self.eat_w(w) { self.die(&format!("expected '{}'", w)); } }
    fn die(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(30);
        panic!("ll parse error: {} at {:?} <<HERE>> {:?}", m, &self.t[a..self.i], &self.t[self.i..(self.i + 10).min(self.t.len())]);
    }
    fn skip_nl(&mut self) { while matches!(self.peek(), T::Nl) { self.i += 1; } }
    fn skip_line(&mut self) {
        while !matches!(self.peek(), T::Nl | T::Eof) { self.i += 1; }
        self.skip_nl();
    }
    fn skip_parens(&mut self) {
        self.exp_p('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                T::Eof => self.die("eof in parens"),
                _ => {}
            }
        }
    }

    fn try_ty(&mut self) -> Option<Ty> {
        let t = match self.peek().clone() {
            T::Word(w) => {
                let t = match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" | "bfloat" => Ty::Float(16),
                    "fp128" => Ty::Float(128),
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "token" => Ty::Opaque,
                    "opaque" => Ty::Opaque,
                    s if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()),
                    _ => return None,
                };
                self.i += 1;
                t
            }
            T::Local(n) => match self.types.get(&n) {
                Some(t) => {
                    let t = t.clone();
                    self.i += 1;
                    t
                }
                None => return None,
            },
            T::P('[') => {
                self.i += 1;
                let n = self.num_u64();
                self.exp_w("x");
                let t = self.ty();
                self.exp_p(']');
                Ty::Arr(n, Arc::new(t))
            }
            T::P('{') => {
                self.i += 1;
                let f = self.ty_list('}');
                Ty::Struct(Arc::new(f), false)
            }
            T::P('<') => {
                self.i += 1;
                if self.eat_p('{') {
                    let f = self.ty_list('}');
                    self.exp_p('>');
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.num_u64();
                    self.exp_w("x");
                    let t = self.ty();
                    self.exp_p('>');
                    Ty::Vec(n, Arc::new(t))
                }
            }
            _ => return None,
        };
        // function types such as `i32 (ptr, ...)`
        Some(t)
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() { Some(t) => t, None => self.die("type expected") }
    }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut v = Vec::new();
        if self.eat_p(end) { return v; }
        loop {
            v.push(self.ty());
            if self.eat_p(',') { continue; }
            self.exp_p(end);
            return v;
        }
    }
    fn num_u64(&mut self) -> u64 {
        match self.next() { T::Num(s) => s.parse().unwrap(), _ => { self.i -= 1; self.die("number") } }
    }

    fn undef_of(&self, ty: &Ty) -> Cv { self.zero(ty) }
    fn zero(&self, ty: &Ty) -> Cv {
        match ty {
            Ty::Arr(n, t) => Cv::Agg(Arc::new((0..*n).map(|_| self.zero(t)).collect())),
            Ty::Vec(n, t) => Cv::Agg(Arc::new((0..*n).map(|_| self.zero(t)).collect())),
            Ty::Struct(f, _) => Cv::Agg(Arc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Cv::I(0),
        }
    }

    fn is_const_start(&self) -> bool {
        match self.peek() {
            T::Num(_) | T::Global(_) | T::CStr(_) => true,
            T::P('[') | T::P('{') | T::P('<') | T::P('+') | T::P('-') => true,
            T::Word(w) => w.starts_with("f0x") || matches!(
                w.as_str(),
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "splat" | "dso_local_equivalent" | "no_cfi" | "blockaddress"
            ),
            _ => false,
        }
    }

    fn constant(&mut self, ty: &Ty) -> Cv {
        match self.next() {
            T::Num(s) => match ty {
                Ty::Int(w) => {
                    let v: u128 = if let Some(x) = s.strip_prefix('-') {
                        (x.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                    } else {
                        s.parse::<u128>().unwrap_or_else(|_| self.die("int const"))
                    };
                    Cv::I(mask(v, *w))
                }
                Ty::Float(w) => {
                    if let Some(h) = s.strip_prefix("0x") {
                        let b = u64::from_str_radix(h, 16).unwrap_or(0);
                        if *w == 32 { Cv::I((f64::from_bits(b) as f32).to_bits() as u128) } else { Cv::I(b as u128) }
                    } else {
                        let f: f64 = s.parse().unwrap();
                        if *w == 32 { Cv::I((f as f32).to_bits() as u128) } else { Cv::I(f.to_bits() as u128) }
                    }
                }
                _ => self.die("numeric constant of non-numeric type"),
            },
            T::Global(n) => Cv::I(self.global_addr(&n) as u128),
            T::CStr(s) => Cv::Agg(Arc::new(s.into_iter().map(|b| Cv::I(b as u128)).collect())),
            T::P(c @ ('+' | '-')) => {
                let n = match self.next() { T::Word(w) => w, _ => self.die("float const") };
                if self.is_p('(') { self.skip_parens(); }
                let f = match n.as_str() { "inf" => f64::INFINITY, "qnan" | "nan" => f64::NAN, _ => self.die("float const") };
                let f = if c == '-' { -f } else { f };
                Cv::I(if ty.bits() == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
            }
            T::P('[') => self.const_list(']'),
            T::P('{') => self.const_list('}'),
            T::P('<') => {
                if self.eat_p('{') {
                    let r = self.const_list('}');
                    self.exp_p('>');
                    r
                } else {
                    self.const_list('>')
                }
            }
            T::Word(w) => match w.as_str() {
                h if h.starts_with("f0x") => Cv::I(u128::from_str_radix(&h[3..], 16).unwrap_or_else(|_| self.die("float const"))),
                "null" | "none" => Cv::I(0),
                "true" => Cv::I(1),
                "false" => Cv::I(0),
                "undef" | "poison" => self.undef_of(ty),
                "zeroinitializer" => self.zero(ty),
                "splat" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.exp_p(')');
                    match ty {
                        Ty::Vec(n, _) => Cv::Agg(Arc::new((0..*n).map(|_| c.clone()).collect())),
                        _ => self.die("splat of non vector"),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.constant(ty),
                "getelementptr" => {
                    while let T::Word(_) = self.peek() {
                        self.i += 1;
                        if self.is_p('(') && matches!(&self.t[self.i - 1], T::Word(w) if w == "inrange") { self.skip_parens(); }
                    }
                    self.exp_p('(');
                    let sty = self.ty();
                    self.exp_p(',');
                    let bt = self.ty();
                    let base = self.constant(&bt);
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        let c = self.constant(&it);
                        match c {
                            Cv::I(v) => idx.push((sext(v, it.bits()) as i128) as i64),
                            _ => self.die("gep idx"),
                        }
                    }
                    self.exp_p(')');
                    let mut a = match base { Cv::I(v) => v as u64, _ => self.die("gep base") };
                    let mut cur = sty;
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            a = a.wrapping_add((cur.size() as i64).wrapping_mul(*i) as u64);
                        } else {
                            match cur.clone() {
                                Ty::Struct(f, _) => {
                                    a = a.wrapping_add(cur.field_off(*i as usize));
                                    cur = f[*i as usize].clone();
                                }
                                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                    a = a.wrapping_add((t.size() as i64).wrapping_mul(*i) as u64);
                                    cur = (*t).clone();
                                }
                                _ => self.die("gep into scalar"),
                            }
                        }
                    }
                    Cv::I(a as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.exp_w("to");
                    let to = self.ty();
                    self.exp_p(')');
                    match c { Cv::I(v) => Cv::I(mask(v, to.bits())), x => x }
                }
                "sub" | "add" | "xor" => {
                    while let T::Word(_) = self.peek() { self.i += 1; }
                    self.exp_p('(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.exp_p(',');
                    let t2 = self.ty();
                    let b = self.constant(&t2);
                    self.exp_p(')');
                    match (a, b) {
                        (Cv::I(a), Cv::I(b)) => Cv::I(mask(match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b }, t.bits())),
                        _ => self.die("const binop"),
                    }
                }
                _ => { self.i -= 1; self.die("constant") }
            },
            _ => { self.i -= 1; self.die("constant") }
        }
    }
    fn global_addr(&mut self, n: &str) -> u64 {
        match self.gaddr.get(n) { Some(a) => *a, None => self.die(&format!("unknown global @{}", n)) }
    }
    fn const_list(&mut self, end: char) -> Cv {
        let mut v = Vec::new();
        if self.eat_p(end) { return Cv::Agg(Arc::new(v)); }
        loop {
            let t = self.ty();
            v.push(self.constant(&t));
            if self.eat_p(',') { continue; }
            self.exp_p(end);
            return Cv::Agg(Arc::new(v));
        }
    }

    /// skip attributes in front of a value or type
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::Word(w) => {
                    if w == "align" {
                        self.i += 1;
                        if self.is_p('(') { self.skip_parens(); } else { self.i += 1; }
                        continue;
                    }
                    if self.is_const_start() { return; }
                    // a type keyword?
                    let save = self.i;
                    let is_ty = self.try_ty().is_some();
                    self.i = save;
                    if is_ty { return; }
                    self.i += 1;
                    if self.is_p('(') { self.skip_parens(); }
                }
                T::Str(_) => {
                    self.i += 1;
                    if self.eat_p('=') { self.i += 1; }
                }
                T::Attr => self.i += 1,
                _ => return,
            }
        }
    }
    /// skip words that precede the type in call / define (linkage, cc, ret attrs)
    fn operand(&mut self, ty: &Ty, f: &mut FnCtx) -> Op {
        match self.peek().clone() {
            T::Local(n) => {
                self.i += 1;
                Op::R(f.reg(&n))
            }
            _ => { let c = self.constant(ty); Op::C(cv_val(&c, ty)) }
        }
    }
    fn tyop(&mut self, f: &mut FnCtx) -> (Ty, Op) {
        let t = self.ty();
        let o = self.operand(&t, f);
        (t, o)
    }
    fn label(&mut self, f: &mut FnCtx) -> u32 {
        self.exp_w("label");
        match self.next() { T::Local(n) => f.block(&n), _ => self.die("label") }
    }
    fn skip_flags(&mut self) {
        loop {
            match self.peek() {
                T::Word(w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak") => self.i += 1,
                _ => return,
            }
        }
    }

    fn inst(&mut self, f: &mut FnCtx) -> Result<Inst, Phi> {
        let mut dst = None;
        if let T::Local(n) = self.peek().clone() {
            self.i += 1;
            self.exp_p('=');
            dst = Some(f.reg(&n));
        }
        let d = dst.unwrap_or(u32::MAX);
        let mut op = match self.next() { T::Word(w) => w, _ => { self.i -= 1; self.die("opcode") } };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match self.next() { T::Word(w) => w, _ => self.die("opcode") };
        }
        let bin = match op.as_str() {
            "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv), "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem), "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr),
            "fadd" => Some(Bin::FAdd), "fsub" => Some(Bin::FSub), "fmul" => Some(Bin::FMul), "fdiv" => Some(Bin::FDiv), "frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.skip_flags();
            let (ty, a) = self.tyop(f);
            self.exp_p(',');
            let bb = self.operand(&ty, f);
            return Ok(Inst::Bin { dst: d, op: b, ty, a, b: bb });
        }
        let cast = match op.as_str() {
            "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "bitcast" => Some(Cast::Bitcast),
            "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(Cast::Same),
            "fpext" => Some(Cast::FpExt), "fptrunc" => Some(Cast::FpTrunc), "uitofp" => Some(Cast::UiToFp), "sitofp" => Some(Cast::SiToFp),
            "fptoui" => Some(Cast::FpToUi), "fptosi" => Some(Cast::FpToSi),
            _ => None,
        };
        if let Some(c) = cast {
            self.skip_flags();
            let (from, a) = self.tyop(f);
            self.exp_w("to");
            let to = self.ty();
            let c = if c == Cast::Same {
                let (fb, tb) = (from.elem().bits(), to.elem().bits());
                if fb > tb { Cast::Trunc } else if fb < tb { Cast::ZExt } else { Cast::Same }
            } else { c };
            return Ok(Inst::Cast { dst: d, op: c, from, to, a });
        }
        Ok(match op.as_str() {
            "alloca" => {
                self.eat_w("inalloca");
                let ty = self.ty();
                let mut count = Op::C(Val::I(1));
                if self.is_p(',') {
                    let save = self.i;
                    self.i += 1;
                    if let Some(t) = self.try_ty() { count = self.operand(&t, f); } else { self.i = save; }
                }
                Inst::Alloca { dst: d, size: ty.size(), count }
            }
            "load" => {
                self.skip_flags();
                let ty = self.ty();
                self.exp_p(',');
                let (_, ptr) = self.tyop(f);
                Inst::Load { dst: d, ty, ptr }
            }
            "store" => {
                self.skip_flags();
                let (ty, val) = self.tyop(f);
                self.exp_p(',');
                let (_, ptr) = self.tyop(f);
                Inst::Store { ty, val, ptr }
            }
            "getelementptr" => {
                self.skip_flags();
                let sty = self.ty();
                self.exp_p(',');
                let (bty, base) = self.tyop(f);
                let mut off: u64 = 0;
                let mut idx = Vec::new();
                let mut cur = sty;
                let mut k = 0;
                let mut vecgep = bty.is_vec();
                while self.is_p(',') {
                    if matches!(self.t[self.i + 1], T::Meta(_)) { break; }
                    self.i += 1;
                    let (it, io) = self.tyop(f);
                    if it.is_vec() { vecgep = true; break; }
                    let (scale, fixed) = if k == 0 {
                        (cur.size(), None)
                    } else {
                        match cur.clone() {
                            Ty::Struct(fl, _) => match &io {
                                Op::C(Val::I(v)) => {
                                    let o = cur.field_off(*v as usize);
                                    cur = fl[*v as usize].clone();
                                    (0, Some(o))
                                }
                                _ => self.die("struct gep"),
                            },
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                cur = (*t).clone();
                                (cur.size(), None)
                            }
                            _ => self.die("gep"),
                        }
                    };
                    k += 1;
                    if let Some(o) = fixed { off = off.wrapping_add(o); continue; }
                    match &io {
                        Op::C(Val::I(v)) => off = off.wrapping_add((sext(*v as u128, it.bits()) as i128 as i64).wrapping_mul(scale as i64) as u64),
                        _ => idx.push((io, it.bits(), scale)),
                    }
                }
                if vecgep { Inst::Unsupported("vector gep".into()) } else { Inst::Gep { dst: d, base, off, idx } }
            }
            "icmp" => {
                self.skip_flags();
                let p = match self.next() { T::Word(w) => w, _ => self.die("icmp pred") };
                let c = match p.as_str() {
                    "eq" => Cmp::Eq, "ne" => Cmp::Ne, "ult" => Cmp::Ult, "ule" => Cmp::Ule, "ugt" => Cmp::Ugt, "uge" => Cmp::Uge,
                    "slt" => Cmp::Slt, "sle" => Cmp::Sle, "sgt" => Cmp::Sgt, "sge" => Cmp::Sge, _ => self.die("icmp pred"),
                };
                let (ty, a) = self.tyop(f);
                self.exp_p(',');
                let b = self.operand(&ty, f);
                Inst::Cmp { dst: d, op: c, ty, a, b }
            }
            "fcmp" => {
                self.skip_flags();
                let pred = match self.next() { T::Word(w) => w, _ => self.die("fcmp pred") };
                let (ty, a) = self.tyop(f);
                self.exp_p(',');
                let b = self.operand(&ty, f);
                Inst::FCmp { dst: d, pred, ty, a, b }
            }
            "fneg" => {
                self.skip_flags();
                let (ty, a) = self.tyop(f);
                Inst::FNeg { dst: d, ty, a }
            }
            "freeze" => {
                let (ty, a) = self.tyop(f);
                Inst::Cast { dst: d, op: Cast::Same, from: ty.clone(), to: ty, a }
            }
            "select" => {
                self.skip_flags();
                let (cty, c) = self.tyop(f);
                self.exp_p(',');
                let (ty, a) = self.tyop(f);
                self.exp_p(',');
                let (_, b) = self.tyop(f);
                Inst::Select { dst: d, cty, ty, c, a, b }
            }
            "phi" => {
                self.skip_flags();
                let ty = self.ty();
                let mut inc = Vec::new();
                loop {
                    self.exp_p('[');
                    let o = self.operand(&ty, f);
                    self.exp_p(',');
                    let b = match self.next() { T::Local(n) => f.block(&n), _ => self.die("phi") };
                    self.exp_p(']');
                    inc.push((b, o));
                    if self.is_p(',') && matches!(self.t[self.i + 1], T::P('[')) { self.i += 1; continue; }
                    break;
                }
                return Err(Phi { dst: d, inc });
            }
            "extractvalue" => {
                let (_, a) = self.tyop(f);
                let mut idx = Vec::new();
                while self.is_p(',') && matches!(self.t[self.i + 1], T::Num(_)) { self.i += 1; idx.push(self.num_u64() as u32); }
                Inst::Extract { dst: d, a, idx }
            }
            "insertvalue" => {
                let (aty, a) = self.tyop(f);
                self.exp_p(',');
                let (_, v) = self.tyop(f);
                let mut idx = Vec::new();
                while self.is_p(',') && matches!(self.t[self.i + 1], T::Num(_)) { self.i += 1; idx.push(self.num_u64() as u32); }
                Inst::Insert { dst: d, aty, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyop(f);
                self.exp_p(',');
                let (_, i) = self.tyop(f);
                Inst::ExtractElem { dst: d, a, i }
            }
            "insertelement" => {
                let (aty, a) = self.tyop(f);
                self.exp_p(',');
                let (_, v) = self.tyop(f);
                self.exp_p(',');
                let (_, i) = self.tyop(f);
                Inst::InsertElem { dst: d, aty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyop(f);
                self.exp_p(',');
                let (_, b) = self.tyop(f);
                self.exp_p(',');
                let mt = self.ty();
                let m = self.constant(&mt);
                let mask = match m {
                    Cv::Agg(v) => v.iter().map(|c| match c { Cv::I(x) => *x as u32 as i32 as i64, _ => 0 }).collect(),
                    _ => self.die("mask"),
                };
                Inst::Shuffle { dst: d, ty, a, b, mask }
            }
            "call" | "invoke" => {
                let inv = op == "invoke";
                self.skip_attrs(); // fast-math, cc, ret attrs
                let ret = self.ty();
                if self.is_p('(') { self.skip_parens(); } // explicit function type
                let callee = match self.peek().clone() {
                    T::Global(n) => {
                        self.i += 1;
                        let a = self.global_addr(&n);
                        if a >> OBJ_SHIFT == FN_SLOT { Callee::Fn(((a - obj_addr(FN_SLOT)) / 16) as u32) } else { Callee::Ptr(Op::C(Val::I(a))) }
                    }
                    T::Local(n) => {
                        self.i += 1;
                        Callee::Ptr(Op::R(f.reg(&n)))
                    }
                    T::Word(w) if w == "asm" => {
                        self.i += 1;
                        while matches!(self.peek(), T::Word(_)) { self.i += 1; }
                        self.i += 1; // template
                        self.exp_p(',');
                        self.i += 1; // constraints
                        Callee::Asm
                    }
                    T::Word(w) if w == "inttoptr" => { let c = self.constant(&Ty::Ptr); Callee::Ptr(Op::C(cv_val(&c, &Ty::Ptr))) },
                    _ => self.die("callee"),
                };
                self.exp_p('(');
                let mut args = Vec::new();
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty();
                        if t == Ty::Meta {
                            let mut dpt = 0;
                            while !(dpt == 0 && (self.is_p(',') || self.is_p(')'))) {
                                match self.next() { T::P('(') | T::P('{') => dpt += 1, T::P(')') | T::P('}') => dpt -= 1, _ => {} }
                            }
                            args.push((Ty::Meta, Op::C(Val::I(0))));
                        } else {
                            self.skip_attrs();
                            let o = self.operand(&t, f);
                            args.push((t, o));
                        }
                        if self.eat_p(',') { continue; }
                        self.exp_p(')');
                        break;
                    }
                }
                let mut normal = None;
                if inv {
                    while !self.is_w("to") { self.i += 1; }
                    self.i += 1;
                    normal = Some(self.label(f));
                    self.skip_nl();
                    self.exp_w("unwind");
                    let _ = self.label(f);
                }
                Inst::Call { dst, ret, callee, args, normal }
            }
            "br" => {
                if self.is_w("label") {
                    Inst::Br { to: self.label(f) }
                } else {
                    let (_, c) = self.tyop(f);
                    self.exp_p(',');
                    let t = self.label(f);
                    self.exp_p(',');
                    let e = self.label(f);
                    Inst::CondBr { c, t, f: e }
                }
            }
            "switch" => {
                let (ty, v) = self.tyop(f);
                self.exp_p(',');
                let default = self.label(f);
                self.exp_p('[');
                self.skip_nl();
                let mut cases = Vec::new();
                while !self.eat_p(']') {
                    let t = self.ty();
                    let c = match self.constant(&t) { Cv::I(x) => x, _ => self.die("case") };
                    self.exp_p(',');
                    let l = self.label(f);
                    cases.push((c, l));
                    self.skip_nl();
                }
                Inst::Switch { ty, v, default, cases }
            }
            "ret" => {
                if self.eat_w("void") { Inst::Ret { v: None } } else { let (_, v) = self.tyop(f); Inst::Ret { v: Some(v) } }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "resume" => Inst::Unsupported("resume".into()),
            "landingpad" => {
                // consume clause lines
                while !matches!(self.peek(), T::Nl) { self.i += 1; }
                loop {
                    let save = self.i;
                    self.skip_nl();
                    if self.is_w("cleanup") || self.is_w("catch") || self.is_w("filter") {
                        while !matches!(self.peek(), T::Nl) { self.i += 1; }
                    } else {
                        self.i = save;
                        break;
                    }
                }
                Inst::Unsupported("landingpad".into())
            }
            "atomicrmw" => {
                self.skip_flags();
                let o = match self.next() { T::Word(w) => w, _ => self.die("rmw") };
                let (_, ptr) = self.tyop(f);
                self.exp_p(',');
                let (ty, val) = self.tyop(f);
                Inst::Rmw { dst: d, op: o, ty, ptr, val }
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, ptr) = self.tyop(f);
                self.exp_p(',');
                let (ty, cmp) = self.tyop(f);
                self.exp_p(',');
                let (_, new) = self.tyop(f);
                Inst::CmpXchg { dst: d, ty, ptr, cmp, new }
            }
            o => Inst::Unsupported(o.to_string()),
        })
    }
}

pub fn sext(v: u128, w: u32) -> u128 {
    if w >= 128 { return v; }
    let v = mask(v, w);
    if w > 0 && (v >> (w - 1)) & 1 == 1 { v | !((1u128 << w) - 1) } else { v }
}

fn ser(c: &Cv, ty: &Ty, out: &mut [u8]) {
    match (c, ty) {
        (Cv::I(v), _) => {
            let n = ty.size() as usize;
            for i in 0..n.min(16) { out[i] = (v >> (8 * i)) as u8; }
        }
        (Cv::Agg(f), Ty::Struct(ft, _)) => {
            for (i, (x, t)) in f.iter().zip(ft.iter()).enumerate() {
                let o = ty.field_off(i) as usize;
                ser(x, t, &mut out[o..]);
            }
        }
        (Cv::Agg(f), Ty::Arr(_, t)) | (Cv::Agg(f), Ty::Vec(_, t)) => {
            let s = t.size() as usize;
            for (i, x) in f.iter().enumerate() { ser(x, t, &mut out[i * s..]); }
        }
        _ => panic!("ser"),
    }
}

pub fn parse(src: &[u8]) -> Module {
    let toks = lex(src);
    let mut p = P { t: &toks, i: 0, types: HashMap::new(), gaddr: HashMap::new() };

    // pass 1: names -> addresses, remember positions
    let mut globals: Vec<(String, usize)> = Vec::new();
    let mut aliases: Vec<(String, usize)> = Vec::new();
    let mut funcs: Vec<(String, usize, bool)> = Vec::new();
    let mut slot = 16u64;
    let mut typedefs = Vec::new();
    p.skip_nl();
    loop {
        match p.peek().clone() {
            T::Eof => break,
            T::Global(n) => {
                let pos = p.i;
                // alias?
                let mut j = p.i;
                let mut is_alias = false;
                while !matches!(p.t[j], T::Nl) {
                    match &p.t[j] {
                        T::Word(w) if w == "alias" => { is_alias = true; break; }
                        T::Word(w) if w == "global" || w == "constant" => break,
                        _ => {}
                    }
                    j += 1;
                }
                if is_alias { aliases.push((n, pos)); } else {
                    p.gaddr.insert(n.clone(), obj_addr(slot));
                    slot += 1;
                    globals.push((n, pos));
                }
                p.skip_line();
            }
            T::Local(_) => {
                typedefs.push(p.i);
                p.skip_line();
            }
            T::Word(w) if w == "define" || w == "declare" => {
                let pos = p.i;
                let def = w == "define";
                let mut j = p.i;
                let name = loop {
                    if let T::Global(n) = &p.t[j] { break n.clone(); }
                    j += 1;
                };
                p.gaddr.insert(name.clone(), fn_addr(funcs.len()));
                funcs.push((name, pos, def));
                if def {
                    // skip to closing brace at line start
                    loop {
                        p.skip_line();
                        if p.is_p('}') { break; }
                    }
                }
                p.skip_line();
            }
            _ => p.skip_line(),
        }
    }
    for pos in typedefs {
        p.i = pos;
        if let T::Local(n) = p.next() {
            p.exp_p('=');
            p.exp_w("type");
            let t = p.ty();
            p.types.insert(n, t);
        }
    }
    for (n, pos) in &aliases {
        p.i = *pos;
        while !p.is_w("alias") { p.i += 1; }
        p.i += 1;
        let _ = p.ty();
        p.exp_p(',');
        let t = p.ty();
        if let Cv::I(a) = p.constant(&t) { p.gaddr.insert(n.clone(), a as u64); }
    }
    let mut gout = Vec::new();
    let mut gby = HashMap::new();
    for (n, pos) in &globals {
        p.i = *pos + 1;
        p.exp_p('=');
        let mut is_const = false;
        let mut external = false;
        loop {
            match p.peek().clone() {
                T::Word(w) if w == "global" => { p.i += 1; break; }
                T::Word(w) if w == "constant" => { is_const = true; p.i += 1; break; }
                T::Word(w) if w == "external" || w == "extern_weak" => { external = true; p.i += 1; }
                T::Word(_) => { p.i += 1; if p.is_p('(') { p.skip_parens(); } }
                _ => p.die("global"),
            }
        }
        let ty = p.ty();
        let mut data = vec![0u8; ty.size() as usize];
        if !external {
            let c = p.constant(&ty);
            ser(&c, &ty, &mut data);
        } else if data.len() < 64 {
            data = vec![0u8; 64];
        }
        let a = p.gaddr[n];
        gby.insert(n.clone(), gout.len());
        gout.push(Global { name: n.clone(), slot: a >> OBJ_SHIFT, data, align: 16, is_const });
    }
    let mut fout = Vec::new();
    let mut fby = HashMap::new();
    for (idx, (n, pos, def)) in funcs.iter().enumerate() {
        fby.insert(n.clone(), idx);
        let mut f = Function { name: n.clone(), params: vec![], nregs: 0, blocks: vec![], declared: !*def, idx };
        if *def {
            p.i = *pos;
            while !matches!(p.peek(), T::Global(_)) { p.i += 1; }
            p.i += 1;
            let mut cx = FnCtx { regs: HashMap::new(), nregs: 0, blocks: HashMap::new() };
            p.exp_p('(');
            let mut unnamed = 0;
            if !p.eat_p(')') {
                loop {
                    if matches!(p.peek(), T::Dots) { p.i += 1; p.exp_p(')'); break; }
                    let _ = p.ty();
                    p.skip_attrs();
                    match p.peek().clone() {
                        T::Local(nm) => {
                            p.i += 1;
                            let r = cx.reg(&nm);
                            f.params.push(r);
                        }
                        _ => {
                            let r = cx.reg(&format!("{}", unnamed));
                            unnamed += 1;
                            f.params.push(r);
                        }
                    }
                    if p.eat_p(',') { continue; }
                    p.exp_p(')');
                    break;
                }
            }
            // skip function attributes up to '{' at the end of line
            while !(p.is_p('{') && matches!(p.t[p.i + 1], T::Nl)) { p.i += 1; }
            p.i += 1;
            p.skip_nl();
            let mut blocks: HashMap<u32, Block> = HashMap::new();
            // first block: named, or implicit number
            let entry_is_label = is_label(&p);
            let mut cur = if !entry_is_label {
                // implicit label = number of unnamed params
                let nm = format!("{}", f.params.iter().filter(|r| cx.regs.iter().any(|(k, v)| v == *r && k.bytes().all(|b| b.is_ascii_digit()))).count());
                cx.block(&nm)
            } else { u32::MAX };
            let mut blk = Block::default();
            loop {
                if p.is_p('}') {
                    blocks.insert(cur, blk);
                    break;
                }
                if is_label(&p) {
                    let nm = match p.next() { T::Word(w) => w, T::Num(w) => w, T::Str(s) => String::from_utf8_lossy(&s).to_string(), _ => p.die("label") };
                    p.exp_p(':');
                    if cur != u32::MAX { blocks.insert(cur, std::mem::take(&mut blk)); }
                    cur = cx.block(&nm);
                    p.skip_line();
                    continue;
                }
                match p.inst(&mut cx) {
                    Ok(i) => blk.insts.push(i),
                    Err(phi) => blk.phis.push(phi),
                }
                p.skip_line();
            }
            // entry must be block 0: remap
            let n = cx.blocks.len();
            let mut v: Vec<Block> = (0..n).map(|_| Block::default()).collect();
            for (k, b) in blocks { v[k as usize] = b; }
            f.blocks = v;
            f.nregs = cx.nregs;
            debug_assert!(true);
        }
        fout.push(f);
    }
    // Block ids are assigned in order of first mention; the entry block is always mentioned first
    // (either implicitly or by its label line).
    Module { funcs: fout, fn_by_name: fby, globals: gout, global_by_name: gby, nslots: slot }
}

fn is_label(p: &P) -> bool {
    matches!(p.peek(), T::Word(_) | T::Num(_) | T::Str(_)) && matches!(p.t[p.i + 1], T::P(':'))
}
