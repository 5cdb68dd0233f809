//! Textual LLVM IR: module scan, types, constants and lowering of functions
//! to a scalar register code.
use crate::expr::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    ((*n as u64) * (w as u64) + 7) / 8
                } else {
                    *n as u64 * t.size()
                }
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    /// (byte offset, bit width) of every scalar, in order.
    pub fn scalars(&self, off: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => out.push((off, *w)),
            Ty::Ptr => out.push((off, 64)),
            Ty::Float => out.push((off, 32)),
            Ty::Double => out.push((off, 64)),
            Ty::Arr(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.scalars(off + i * s, out);
                }
            }
            Ty::Vec(n, t) => {
                let s = t.size();
                for i in 0..*n as u64 {
                    t.scalars(off + i * s, out);
                }
            }
            Ty::Struct(ts, packed) => {
                let mut o = off;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    t.scalars(o, out);
                    o += t.size();
                }
            }
            _ => {}
        }
    }
    pub fn sc(&self) -> Vec<(u64, u32)> {
        let mut v = vec![];
        self.scalars(0, &mut v);
        v
    }
    pub fn nsc(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => 1,
            Ty::Arr(n, t) => *n as usize * t.nsc(),
            Ty::Vec(n, t) => *n as usize * t.nsc(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.nsc()).sum(),
        }
    }
    fn field_offset(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    /// (first scalar, type) of an aggregate member.
    fn member(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Struct(ts, _) => (ts[..i].iter().map(|t| t.nsc()).sum(), ts[i].clone()),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.nsc() * i, (**t).clone()),
            _ => panic!("member of scalar"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    Bang,
    P(char),
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'"' => {
                let (v, n) = lex_str(&b[i..]);
                out.push(Tok::Str(v));
                i += n;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, n) = lex_str(&b[i + 1..]);
                out.push(Tok::Str(v));
                i += n + 1;
            }
            b'!' => {
                out.push(Tok::Bang);
                i += 1;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' || b[i] == b'-') {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            _ if is_id(c) => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                out.push(Tok::Id(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

fn lex_str(b: &[u8]) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let mut i = 1;
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(hex(b[i + 1]) * 16 + hex(b[i + 2]));
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

pub type Op = i32; // >= 0 register, < 0 constant !op

#[derive(Clone, Debug)]
pub enum Callee {
    Fun(u32),
    Ind(Op),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    Bitreverse,
    Abs,
    Ucmp,
    Scmp,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    First, // returns its first argument
    Tls,
    Zero,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceUMax,
    ReduceXor,
    VecMap(u8),
    Unsupported,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
    Max,
    Min,
    Nand,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Sched(bool), // another thread may go on here; with true, one has to
    Bin { op: Bop, w: u8, d: u32, a: Op, b: Op },
    Cmp { p: Pred, w: u8, neg: bool, d: u32, a: Op, b: Op },
    Zext { d: u32, a: Op, f: u8, t: u8 },
    Sext { d: u32, a: Op, f: u8, t: u8 },
    Trunc { d: u32, a: Op, f: u8, t: u8 },
    Select { d: u32, c: Op, a: Op, b: Op, w: u8 },
    Mov { d: u32, a: Op },
    Load { d: u32, p: Op, off: u32, w: u8 },
    Store { v: Op, p: Op, off: u32, w: u8 },
    Gep { d: u32, b: Op, off: i64, idx: Box<[(Op, u64, u8)]> },
    Gep1 { d: u32, b: Op, i: Op, s: u64 },
    GepC { d: u32, b: Op, off: i64 },
    Br(u32),
    CondBr { c: Op, t: u32, e: u32 },
    Switch { v: Op, w: u8, cases: Box<[(u128, u32)]>, d: u32 },
    Ret(Box<[Op]>),
    Unreachable,
    Call { d: u32, nd: u32, f: Callee, args: Box<[Op]>, after: Option<u32> },
    Intr { k: Intr, d: u32, w: u8, w2: u8, args: Box<[Op]> },
    Alloca { d: u32, size: u64, n: Op, align: u64 },
    Rmw { op: Rmw, d: u32, p: Op, v: Op, w: u8 },
    CmpXchg { d: u32, p: Op, c: Op, n: Op, w: u8 },
    Pack { d: u32, w: u8, ew: u8, parts: Box<[Op]> },   // elements -> integer
    Unpack { d: u32, n: u32, ew: u8, w: u8, a: Op },    // integer -> elements
    ExtractDyn { d: u32, base: u32, n: u32, i: Op, iw: u8, w: u8 },
    /// Floating point, on concrete values only.
    Fp { op: Fp, d: u32, w: u8, w2: u8, args: Box<[Op]> },
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fp {
    Add, Sub, Mul, Div, Rem, Neg, Cmp(u8),
    FromU, FromS, ToU, ToS, Convert,
    Log10, Log2, Ln, Exp, Exp2, Ceil, Floor, Trunc, Round, RoundEven, Sqrt, Abs, Pow, Powi, Min, Max, CopySign, Fma, Lrint,
}

impl Fp {
    pub fn named(n: &str) -> Option<Fp> {
        Some(match n {
            "log10" => Fp::Log10,
            "log2" => Fp::Log2,
            "log" => Fp::Ln,
            "exp" => Fp::Exp,
            "exp2" => Fp::Exp2,
            "ceil" => Fp::Ceil,
            "floor" => Fp::Floor,
            "trunc" => Fp::Trunc,
            "round" => Fp::Round,
            "roundeven" | "rint" | "nearbyint" => Fp::RoundEven,
            "sqrt" => Fp::Sqrt,
            "fabs" => Fp::Abs,
            "pow" => Fp::Pow,
            "powi" => Fp::Powi,
            "minnum" | "fmin" | "minimumnum" => Fp::Min,
            "maxnum" | "fmax" | "maximumnum" => Fp::Max,
            "copysign" => Fp::CopySign,
            "fma" | "fmuladd" => Fp::Fma,
            _ => return None,
        })
    }
    /// Applies the operation to values of width `w` (for conversions from
    /// integers: the integer's) with a result of width `w2`.
    pub fn eval(self, w: u8, w2: u8, a: &[u64]) -> u64 {
        let f = |i: usize| if w == 32 { f32::from_bits(a[i] as u32) as f64 } else { f64::from_bits(a[i]) };
        let sx = |v: u64, w: u8| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
        let out = |v: f64| if w2 == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
        // operations that must be done in the type itself
        macro_rules! own {
            ($n:ident $(, $i:expr)*) => {
                if w == 32 {
                    f32::from_bits(a[0] as u32).$n($(f32::from_bits(a[$i] as u32)),*).to_bits() as u64
                } else {
                    f64::from_bits(a[0]).$n($(f64::from_bits(a[$i])),*).to_bits()
                }
            };
        }
        match self {
            Fp::Add => out(f(0) + f(1)),
            Fp::Sub => out(f(0) - f(1)),
            Fp::Mul => out(f(0) * f(1)),
            Fp::Div => out(f(0) / f(1)),
            Fp::Rem => out(f(0) % f(1)),
            Fp::Neg => out(-f(0)),
            Fp::Cmp(m) => {
                // bits: 1 less, 2 equal, 4 greater, 8 unordered
                let r = match f(0).partial_cmp(&f(1)) {
                    Some(std::cmp::Ordering::Less) => 1,
                    Some(std::cmp::Ordering::Equal) => 2,
                    Some(std::cmp::Ordering::Greater) => 4,
                    None => 8,
                };
                (m & r != 0) as u64
            }
            Fp::FromU => {
                if w2 == 32 {
                    (a[0] as f32).to_bits() as u64
                } else {
                    (a[0] as f64).to_bits()
                }
            }
            Fp::FromS => {
                let v = sx(a[0], w);
                if w2 == 32 {
                    (v as f32).to_bits() as u64
                } else {
                    (v as f64).to_bits()
                }
            }
            Fp::ToU => {
                let v = f(0) as u64;
                if w2 >= 64 { v } else { v.min((1 << w2) - 1) }
            }
            Fp::ToS | Fp::Lrint => {
                let v = f(0) as i64;
                if w2 >= 64 {
                    v as u64
                } else {
                    let m = 1i64 << (w2 - 1);
                    v.clamp(-m, m - 1) as u64 & ((1 << w2) - 1)
                }
            }
            Fp::Convert => out(f(0)),
            Fp::Log10 => own!(log10),
            Fp::Log2 => own!(log2),
            Fp::Ln => own!(ln),
            Fp::Exp => own!(exp),
            Fp::Exp2 => own!(exp2),
            Fp::Ceil => own!(ceil),
            Fp::Floor => own!(floor),
            Fp::Trunc => own!(trunc),
            Fp::Round => own!(round),
            Fp::RoundEven => own!(round_ties_even),
            Fp::Sqrt => own!(sqrt),
            Fp::Abs => own!(abs),
            Fp::Pow => own!(powf, 1),
            Fp::Powi => {
                let k = a[1] as u32 as i32;
                if w == 32 {
                    f32::from_bits(a[0] as u32).powi(k).to_bits() as u64
                } else {
                    f64::from_bits(a[0]).powi(k).to_bits()
                }
            }
            Fp::Min => own!(min, 1),
            Fp::Max => own!(max, 1),
            Fp::CopySign => own!(copysign, 1),
            Fp::Fma => own!(mul_add, 1, 2),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Box<[(u32, Op)]>,
}

pub struct Func {
    pub name: String,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub consts: Vec<Val>,
    pub nregs: u32,
    pub nparams: u32,
}

pub struct FDecl {
    pub name: String,
    pub body: Option<(usize, usize)>,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<FDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: HashMap<String, u64>,
    pub ginit: Vec<(u64, Vec<u8>)>,
    pub gaddr: Vec<(u64, u64, String)>,
    /// Thread-local variables: the distance between copies, and the first value.
    pub tls: HashMap<u64, (u64, Vec<u8>)>,
}

pub const FBASE: u64 = 0x1000_0000;
/// Threads besides the first one.
pub const MAX_THREADS: u64 = 4;
pub const GBASE: u64 = 0x4000_0000;

pub fn faddr(i: u32) -> u64 {
    FBASE + 16 * i as u64
}

const PARAM_WORDS: &[&str] = &["align", "alignstack"];

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c, &self.t[self.i..(self.i + 6).min(self.t.len())]);
        }
    }
    fn id(&self) -> &str {
        match self.peek() {
            Some(Tok::Id(s)) => s,
            _ => "",
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.id() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        self.want('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => is_type_word(s),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            _ => false,
        }
    }
    /// Skips attribute words up to the next type.
    fn skip_attrs(&mut self) {
        loop {
            if self.at_type() {
                return;
            }
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    self.i += 1;
                    if self.is('(') {
                        self.skip_parens();
                    } else if PARAM_WORDS.contains(&s.as_str()) {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    /// Skips parameter attributes before a value.
    fn skip_val_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if is_attr(s) => {
                    let s = s.clone();
                    self.i += 1;
                    if self.is('(') {
                        self.skip_parens();
                    } else if PARAM_WORDS.contains(&s.as_str()) {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) if self.t.get(self.i + 1) == Some(&Tok::P('=')) => {
                    self.i += 3;
                }
                _ => return,
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.id() == "addrspace" {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "metadata" | "label" | "token" => Ty::Meta,
                _ if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
                _ => panic!("type {}", s),
            },
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(v, false)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    while !self.eat('}') {
                        v.push(self.ty());
                        self.eat(',');
                    }
                    self.want('>');
                    Ty::Struct(v, true)
                } else {
                    let n = match self.next() {
                        Tok::Num(n) => n.parse().unwrap(),
                        t => panic!("vec {:?}", t),
                    };
                    self.i += 1; // x
                    let t = self.ty();
                    self.want('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::P('[') => {
                let n = match self.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    t => panic!("arr {:?}", t),
                };
                self.i += 1;
                let t = self.ty();
                self.want(']');
                Ty::Arr(n, Box::new(t))
            }
            t => panic!("type {:?}", t),
        }
    }
}

fn is_type_word(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token")
        || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn is_attr(s: &str) -> bool {
    !matches!(
        s,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "splat" | "asm" | "addrspacecast" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "c"
    )
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: HashMap::new(),
            ginit: vec![],
            gaddr: vec![],
            tls: HashMap::new(),
        };
        let bytes = text.as_bytes();
        let mut pos = 0;
        let mut gl: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        let n = bytes.len();
        while pos < n {
            let end = bytes[pos..].iter().position(|&c| c == b'\n').map(|x| pos + x).unwrap_or(n);
            match bytes[pos] {
                b'@' => {
                    let line = &text[pos..end];
                    let (name, rest) = gname(line);
                    if line[rest..].trim_start().starts_with("= ") && line[rest..].split_whitespace().any(|w| w == "alias") && !line.contains(" constant ") && !line.contains(" global ") {
                        aliases.push((name, pos, end));
                    } else {
                        gl.push((name, pos + rest, end));
                    }
                }
                b'd' if text[pos..end].starts_with("define ") => {
                    let line = &text[pos..end];
                    let at = line.find('@').unwrap();
                    let (name, _) = gname(&line[at..]);
                    let mut q = end + 1;
                    loop {
                        if bytes[q] == b'}' && (q + 1 >= n || bytes[q + 1] == b'\n') {
                            break;
                        }
                        q += bytes[q..].iter().position(|&c| c == b'\n').unwrap() + 1;
                    }
                    let id = m.funcs.len() as u32;
                    m.fidx.insert(name.clone(), id);
                    m.funcs.push(FDecl { name, body: Some((pos, q)) });
                    pos = q + 2;
                    continue;
                }
                b'd' if text[pos..end].starts_with("declare ") => {
                    let line = &text[pos..end];
                    let at = line.find('@').unwrap();
                    let (name, _) = gname(&line[at..]);
                    let id = m.funcs.len() as u32;
                    m.fidx.insert(name.clone(), id);
                    m.funcs.push(FDecl { name, body: None });
                }
                _ => {}
            }
            pos = end + 1;
        }
        for (name, s, e) in aliases {
            let line = &text[s..e];
            let at = line.rfind('@').unwrap();
            let (tgt, _) = gname(&line[at..]);
            if let Some(&f) = m.fidx.get(&tgt) {
                m.fidx.insert(name, f);
            }
        }
        // global addresses
        let mut parsed: Vec<(String, Ty, Vec<Tok>, usize)> = vec![];
        let mut addr = GBASE;
        for (name, s, e) in gl {
            let toks = lex(&text[s..e]);
            // = linkage ... (global|constant) TYPE init
            let mut i = 0;
            let ext = toks.iter().any(|t| matches!(t, Tok::Id(x) if x == "external" || x == "extern_weak"));
            while !matches!(&toks[i], Tok::Id(x) if x == "global" || x == "constant") {
                i += 1;
            }
            i += 1;
            let tls = toks[..i].iter().any(|t| matches!(t, Tok::Id(x) if x == "thread_local"));
            let mut p = P { t: &toks, i };
            let ty = p.ty();
            let i = p.i;
            addr = (addr + 31) / 16 * 16;
            m.globals.insert(name.clone(), addr);
            let mut sz = ty.size().max(if ext { 64 } else { 1 });
            if tls && !ext {
                // one copy for every thread
                let stride = (sz + 15) / 16 * 16;
                m.tls.insert(addr, (stride, vec![]));
                sz = stride * (MAX_THREADS + 1);
            }
            m.gaddr.push((addr, sz, name.clone()));
            addr += sz;
            if ext {
                m.ginit.push((addr - sz, vec![0; 64]));
            } else {
                parsed.push((name, ty, toks, i));
            }
        }
        for (name, ty, toks, i) in parsed {
            let mut p = P { t: &toks, i };
            let mut buf = vec![0u8; ty.size() as usize];
            m.init_bytes(&mut p, &ty, 0, &mut buf);
            let a = m.globals[&name];
            if let Some(t) = m.tls.get_mut(&a) {
                t.1 = buf.clone();
            }
            m.ginit.push((a, buf));
        }
        m.text = text;
        m
    }

    fn init_bytes(&self, p: &mut P, ty: &Ty, off: usize, buf: &mut [u8]) {
        if let (Ty::Arr(_, _), Some(Tok::Str(_))) = (ty, p.peek()) {
            if let Tok::Str(v) = p.next() {
                buf[off..off + v.len()].copy_from_slice(&v);
            }
            return;
        }
        let vals = self.konst(p, ty);
        for ((o, w), v) in ty.sc().into_iter().zip(vals) {
            let nb = ((w + 7) / 8) as usize;
            for k in 0..nb {
                buf[off + o as usize + k] = (v >> (8 * k)) as u8;
            }
        }
    }

    /// Evaluates a constant of type `ty` to its scalars.
    pub fn konst(&self, p: &mut P, ty: &Ty) -> Vec<u128> {
        let t = p.next();
        match (&t, ty) {
            (Tok::Id(s), _) if matches!(s.as_str(), "zeroinitializer" | "undef" | "poison" | "null" | "none") => vec![0; ty.nsc()],
            (Tok::Id(s), _) if s == "true" => vec![1],
            (Tok::Id(s), _) if s == "false" => vec![0],
            (Tok::Id(s), Ty::Vec(n, _)) if s == "splat" => {
                p.want('(');
                let t = p.ty();
                let v = self.konst(p, &t);
                p.want(')');
                let mut out = vec![];
                for _ in 0..*n {
                    out.extend_from_slice(&v);
                }
                out
            }
            (Tok::Num(s), Ty::Int(w)) => {
                let v: i128 = if let Some(h) = s.strip_prefix("u0x") {
                    u128::from_str_radix(h, 16).unwrap() as i128
                } else {
                    s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128)
                };
                vec![v as u128 & mask128(*w)]
            }
            (Tok::Num(s), Ty::Float | Ty::Double) => {
                let v = match s.strip_prefix("0x") {
                    Some(h) => f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0)),
                    None => s.parse::<f64>().unwrap_or(0.0),
                };
                vec![if *ty == Ty::Float { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }]
            }
            (Tok::Global(g), _) => vec![self.gref(g) as u128],
            (Tok::P('['), Ty::Arr(..)) | (Tok::P('{'), Ty::Struct(..)) => {
                let close = if t == Tok::P('[') { ']' } else { '}' };
                let mut out = vec![];
                while !p.eat(close) {
                    let et = p.ty();
                    out.extend(self.konst(p, &et));
                    p.eat(',');
                }
                out
            }
            (Tok::P('<'), _) => {
                let mut out = vec![];
                let st = p.eat('{');
                loop {
                    if st && p.is('}') {
                        p.i += 1;
                        p.want('>');
                        break;
                    }
                    if !st && p.eat('>') {
                        break;
                    }
                    let et = p.ty();
                    out.extend(self.konst(p, &et));
                    p.eat(',');
                }
                out
            }
            (Tok::Str(v), Ty::Arr(..)) => v.iter().map(|&b| b as u128).collect(),
            (Tok::Id(s), _) => {
                let op = s.clone();
                match op.as_str() {
                    "getelementptr" => {
                        while !p.is('(') {
                            p.i += 1;
                        }
                        p.want('(');
                        let base_ty = p.ty();
                        p.want(',');
                        let pt = p.ty();
                        let base = self.konst(p, &pt)[0];
                        let mut off = 0i128;
                        let mut cur = base_ty.clone();
                        let mut first = true;
                        while p.eat(',') {
                            p.eat_id("inrange");
                            let it = p.ty();
                            let iv = self.konst(p, &it)[0];
                            let w = if let Ty::Int(w) = it { w } else { 64 };
                            let iv = sext128(iv, w);
                            if first {
                                off += iv * base_ty.size() as i128;
                                first = false;
                            } else if let Ty::Struct(..) = cur {
                                let (o, t) = cur.field_offset(iv as usize);
                                off += o as i128;
                                cur = t;
                            } else if let Ty::Arr(_, t) = cur.clone() {
                                off += iv * t.size() as i128;
                                cur = *t;
                            }
                        }
                        p.want(')');
                        vec![(base as i128 + off) as u128 & mask128(64)]
                    }
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                        while !p.is('(') {
                            p.i += 1;
                        }
                        p.want('(');
                        let t1 = p.ty();
                        let v = self.konst(p, &t1);
                        assert!(p.eat_id("to"));
                        let t2 = p.ty();
                        p.want(')');
                        let w = t2.sc()[0].1;
                        v.into_iter().map(|x| x & mask128(w)).collect()
                    }
                    "add" | "sub" | "xor" => {
                        while !p.is('(') {
                            p.i += 1;
                        }
                        p.want('(');
                        let t1 = p.ty();
                        let a = self.konst(p, &t1)[0];
                        p.want(',');
                        let t2 = p.ty();
                        let b = self.konst(p, &t2)[0];
                        p.want(')');
                        let w = t1.sc()[0].1;
                        let r = match op.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        };
                        vec![r & mask128(w)]
                    }
                    _ => panic!("constant {} {:?}", op, &p.t[p.i..(p.i + 8).min(p.t.len())]),
                }
            }
            _ => panic!("constant {:?} of {:?}", t, ty),
        }
    }

    pub fn gref(&self, g: &str) -> u64 {
        if let Some(&a) = self.globals.get(g) {
            return a;
        }
        if let Some(&f) = self.fidx.get(g) {
            return faddr(f);
        }
        panic!("unknown global {}", g)
    }

    pub fn lower(&self, fi: u32, ctx: &mut Ctx) -> Func {
        let (s, e) = self.funcs[fi as usize].body.unwrap();
        let text = &self.text[s..e];
        let nl = text.find('\n').unwrap();
        let mut l = Lower {
            m: self,
            ctx,
            slots: HashMap::new(),
            nregs: 0,
            code: vec![],
            edges: vec![],
            consts: vec![],
            cmap: HashMap::new(),
        };
        // parameters
        let header = &text[..nl];
        let at = header.find('@').unwrap();
        let toks = lex(&header[at..]);
        let mut p = P { t: &toks, i: 1 };
        p.want('(');
        while !p.eat(')') {
            if p.eat('.') {
                p.eat('.');
                p.eat('.');
                continue;
            }
            if let Some(Tok::Id(x)) = p.peek() {
                if x == "..." {
                    p.i += 1;
                    continue;
                }
            }
            p.skip_attrs();
            let ty = p.ty();
            p.skip_val_attrs();
            let name = match p.next() {
                Tok::Local(n) => n,
                t => panic!("param {:?} in {}", t, header),
            };
            l.slot(&name, &ty);
            p.eat(',');
        }
        let nparams = l.nregs;
        // logical lines
        let mut lines: Vec<String> = vec![];
        for line in text[nl + 1..].lines() {
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            let tl = line.trim_start();
            let ind = line.len() - tl.len();
            if ind == 0 {
                lines.push(line.to_string());
            } else if ind == 2 && !tl.starts_with(']') {
                if tl.starts_with(';') || tl.starts_with("#dbg") {
                    continue;
                }
                lines.push(line.to_string());
            } else if let Some(last) = lines.last_mut() {
                last.push(' ');
                last.push_str(tl);
            }
        }
        // block structure: entry's label may be implicit
        struct Blk {
            name: String,
            insts: Vec<Vec<Tok>>,
        }
        let mut blocks: Vec<Blk> = vec![];
        let entry_implicit = nparams_name(&header[at..]);
        for line in &lines {
            if !line.starts_with(' ') {
                let nm = if line.starts_with('"') {
                    let e = line[1..].find('"').unwrap();
                    line[1..1 + e].to_string()
                } else {
                    line[..line.find(':').unwrap()].to_string()
                };
                blocks.push(Blk { name: nm, insts: vec![] });
            } else {
                if blocks.is_empty() {
                    blocks.push(Blk { name: entry_implicit.clone(), insts: vec![] });
                }
                blocks.last_mut().unwrap().insts.push(lex(line));
            }
        }
        let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();
        // phis per block
        let mut phis: Vec<Vec<(u32, usize, HashMap<String, Vec<Op>>)>> = vec![];
        for b in &blocks {
            let mut v = vec![];
            for toks in &b.insts {
                if toks.len() > 2 && toks[1] == Tok::P('=') && toks[2] == Tok::Id("phi".into()) {
                    let name = if let Tok::Local(n) = &toks[0] { n.clone() } else { panic!() };
                    let mut p = P { t: toks, i: 3 };
                    p.skip_attrs();
                    let ty = p.ty();
                    let d = l.slot(&name, &ty);
                    let mut inc = HashMap::new();
                    while p.eat('[') {
                        let ops = l.val(&mut p, &ty);
                        p.want(',');
                        let bn = match p.next() {
                            Tok::Local(n) => n,
                            t => panic!("{:?}", t),
                        };
                        p.want(']');
                        inc.insert(bn, ops);
                        if !p.eat(',') {
                            break;
                        }
                    }
                    v.push((d, ty.nsc(), inc));
                } else {
                    break;
                }
            }
            phis.push(v);
        }
        let mut starts: Vec<u32> = vec![0; blocks.len()];
        let mut edge_blocks: Vec<usize> = vec![];
        for (bi, b) in blocks.iter().enumerate() {
            starts[bi] = l.code.len() as u32;
            let np = phis[bi].len();
            for toks in &b.insts[np..] {
                // edges created on demand
                let mut mk = |l: &mut Lower, target: &str| -> u32 {
                    let tb = bidx[target];
                    let mut moves = vec![];
                    for (d, n, inc) in &phis[tb] {
                        let ops = inc.get(&b.name).unwrap_or_else(|| panic!("phi edge {} -> {} in {}", b.name, target, header));
                        for k in 0..*n {
                            moves.push((d + k as u32, ops[k]));
                        }
                    }
                    l.edges.push(Edge { to: 0, moves: moves.into() });
                    edge_blocks.push(tb);
                    l.edges.len() as u32 - 1
                };
                l.inst(toks, &mut mk);
            }
        }
        for (i, e) in l.edges.iter_mut().enumerate() {
            e.to = starts[edge_blocks[i]];
        }
        Func {
            name: self.funcs[fi as usize].name.clone(),
            code: l.code,
            edges: l.edges,
            consts: l.consts,
            nregs: l.nregs,
            nparams,
        }
    }
}

/// Name of the implicit entry block: the number after the unnamed parameters.
fn nparams_name(h: &str) -> String {
    let toks = lex(h);
    let mut max: i64 = -1;
    let mut d = 0;
    for t in &toks[1..] {
        match t {
            Tok::P('(') => d += 1,
            Tok::P(')') => {
                d -= 1;
                if d == 0 {
                    break;
                }
            }
            Tok::Local(n) => {
                if let Ok(k) = n.parse::<i64>() {
                    max = max.max(k);
                }
            }
            _ => {}
        }
    }
    format!("{}", max + 1)
}

fn gname(line: &str) -> (String, usize) {
    let b = line.as_bytes();
    let mut i = 1;
    if b[1] == b'"' {
        i = 2;
        while b[i] != b'"' {
            i += 1;
        }
        return (line[2..i].to_string(), i + 1);
    }
    while i < b.len() && is_id(b[i]) {
        i += 1;
    }
    (line[1..i].to_string(), i)
}

struct Lower<'a> {
    m: &'a Module,
    ctx: &'a mut Ctx,
    slots: HashMap<String, (u32, Ty)>,
    nregs: u32,
    code: Vec<Inst>,
    edges: Vec<Edge>,
    consts: Vec<Val>,
    cmap: HashMap<(u128, u32), Op>,
}

impl<'a> Lower<'a> {
    fn slot(&mut self, name: &str, ty: &Ty) -> u32 {
        if let Some((s, t)) = self.slots.get(name) {
            if t.nsc() != ty.nsc() {
                panic!("slot type mismatch {} {:?} {:?}", name, t, ty);
            }
            return *s;
        }
        let s = self.nregs;
        self.nregs += ty.nsc() as u32;
        self.slots.insert(name.to_string(), (s, ty.clone()));
        s
    }
    fn kop(&mut self, v: u128, w: u32) -> Op {
        let key = if w <= 64 { (v, 64) } else { (v, w) };
        if let Some(&o) = self.cmap.get(&key) {
            return o;
        }
        let val = if w <= 64 {
            Val::c(v as u64)
        } else {
            let e = self.ctx.konst(v, w);
            Val { e, c: 0 }
        };
        self.consts.push(val);
        let o = !(self.consts.len() as i32 - 1);
        self.cmap.insert(key, o);
        o
    }
    fn val(&mut self, p: &mut P, ty: &Ty) -> Vec<Op> {
        if let Some(Tok::Local(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            let s = self.slot(&n, ty);
            return (0..ty.nsc()).map(|k| s as i32 + k as i32).collect();
        }
        let vs = self.m.konst(p, ty);
        let sc = ty.sc();
        vs.into_iter().zip(sc).map(|(v, (_, w))| self.kop(v, w)).collect()
    }
    fn tyval(&mut self, p: &mut P) -> (Ty, Vec<Op>) {
        p.skip_attrs();
        let t = p.ty();
        p.skip_val_attrs();
        let v = self.val(p, &t);
        (t, v)
    }
    fn elem_w(t: &Ty) -> u32 {
        match t {
            Ty::Vec(_, e) => Self::elem_w(e),
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("elem_w {:?}", t),
        }
    }
    fn load(&mut self, d: u32, ty: &Ty, p: Op) {
        if let Ty::Vec(_, e) = ty {
            if let Ty::Int(w) = **e {
                if w % 8 != 0 {
                    let tw = ty.size() as u32 * 8;
                    let n = ty.nsc() as u32;
                    let tmp = self.nregs;
                    self.nregs += 1;
                    self.code.push(Inst::Load { d: tmp, p, off: 0, w: tw as u8 });
                    self.code.push(Inst::Unpack { d, n, ew: w as u8, w: tw as u8, a: tmp as i32 });
                    return;
                }
            }
        }
        for (k, (o, w)) in ty.sc().into_iter().enumerate() {
            self.code.push(Inst::Load { d: d + k as u32, p, off: o as u32, w: w as u8 });
        }
    }
    fn store(&mut self, v: &[Op], ty: &Ty, p: Op) {
        if let Ty::Vec(_, e) = ty {
            if let Ty::Int(w) = **e {
                if w % 8 != 0 {
                    let tw = ty.size() as u32 * 8;
                    if ty.nsc() as u32 * w != tw {
                        self.code.push(Inst::Bad("store of bit vector".into()));
                        return;
                    }
                    let tmp = self.nregs;
                    self.nregs += 1;
                    self.code.push(Inst::Pack { d: tmp, w: tw as u8, ew: w as u8, parts: v.to_vec().into() });
                    self.code.push(Inst::Store { v: tmp as i32, p, off: 0, w: tw as u8 });
                    return;
                }
            }
        }
        for (k, (o, w)) in ty.sc().into_iter().enumerate() {
            self.code.push(Inst::Store { v: v[k], p, off: o as u32, w: w as u8 });
        }
    }

    fn inst(&mut self, toks: &[Tok], mk: &mut dyn FnMut(&mut Lower, &str) -> u32) {
        let mut p = P { t: toks, i: 0 };
        let mut dst: Option<String> = None;
        if toks.len() > 1 && toks[1] == Tok::P('=') {
            if let Tok::Local(n) = &toks[0] {
                dst = Some(n.clone());
            }
            p.i = 2;
        }
        let mut op = match p.next() {
            Tok::Id(s) => s,
            t => panic!("inst {:?} {:?}", t, toks),
        };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match p.next() {
                Tok::Id(s) => s,
                _ => panic!(),
            };
        }
        match op.as_str() {
            "ret" => {
                let t = p.ty();
                let v = if t == Ty::Void { vec![] } else { self.val(&mut p, &t) };
                self.code.push(Inst::Ret(v.into()));
            }
            "unreachable" | "resume" => self.code.push(Inst::Unreachable),
            "br" => {
                let t = p.ty();
                if t == Ty::Meta {
                    let n = match p.next() {
                        Tok::Local(n) => n,
                        _ => panic!(),
                    };
                    let e = mk(self, &n);
                    self.code.push(Inst::Br(e));
                } else {
                    let c = self.val(&mut p, &t)[0];
                    p.want(',');
                    p.ty();
                    let a = match p.next() {
                        Tok::Local(n) => n,
                        _ => panic!(),
                    };
                    p.want(',');
                    p.ty();
                    let b = match p.next() {
                        Tok::Local(n) => n,
                        _ => panic!(),
                    };
                    let t = mk(self, &a);
                    let e = mk(self, &b);
                    self.code.push(Inst::CondBr { c, t, e });
                }
            }
            "switch" => {
                let t = p.ty();
                let w = Self::elem_w(&t);
                let v = self.val(&mut p, &t)[0];
                p.want(',');
                p.ty();
                let dn = match p.next() {
                    Tok::Local(n) => n,
                    _ => panic!(),
                };
                p.want('[');
                let mut cases = vec![];
                let mut cache: HashMap<String, u32> = HashMap::new();
                let d = mk(self, &dn);
                cache.insert(dn, d);
                while !p.eat(']') {
                    let ct = p.ty();
                    let cv = self.m.konst(&mut p, &ct)[0];
                    p.want(',');
                    p.ty();
                    let n = match p.next() {
                        Tok::Local(n) => n,
                        _ => panic!(),
                    };
                    let e = match cache.get(&n) {
                        Some(&e) => e,
                        None => {
                            let e = mk(self, &n);
                            cache.insert(n, e);
                            e
                        }
                    };
                    cases.push((cv, e));
                }
                self.code.push(Inst::Switch { v, w: w as u8, cases: cases.into(), d });
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while !p.at_type() {
                    p.i += 1;
                }
                let t = p.ty();
                let a = self.val(&mut p, &t);
                p.want(',');
                let b = self.val(&mut p, &t);
                let w = Self::elem_w(&t) as u8;
                let d = self.slot(&dst.unwrap(), &t);
                let bop = match op.as_str() {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "sdiv" => Bop::SDiv,
                    "urem" => Bop::URem,
                    "srem" => Bop::SRem,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    _ => Bop::AShr,
                };
                for k in 0..a.len() {
                    self.code.push(Inst::Bin { op: bop, w, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "icmp" => {
                p.eat_id("samesign");
                let pr = match p.next() {
                    Tok::Id(s) => s,
                    _ => panic!(),
                };
                let t = p.ty();
                let mut a = self.val(&mut p, &t);
                p.want(',');
                let mut b = self.val(&mut p, &t);
                let w = Self::elem_w(&t) as u8;
                let rt = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let d = self.slot(&dst.unwrap(), &rt);
                let (pred, neg, swap) = match pr.as_str() {
                    "eq" => (Pred::Eq, false, false),
                    "ne" => (Pred::Eq, true, false),
                    "ult" => (Pred::Ult, false, false),
                    "ule" => (Pred::Ule, false, false),
                    "ugt" => (Pred::Ult, false, true),
                    "uge" => (Pred::Ule, false, true),
                    "slt" => (Pred::Slt, false, false),
                    "sle" => (Pred::Sle, false, false),
                    "sgt" => (Pred::Slt, false, true),
                    "sge" => (Pred::Sle, false, true),
                    x => panic!("icmp {}", x),
                };
                if swap {
                    std::mem::swap(&mut a, &mut b);
                }
                for k in 0..a.len() {
                    self.code.push(Inst::Cmp { p: pred, w, neg, d: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while !p.at_type() {
                    p.i += 1;
                }
                let t = p.ty();
                let a = self.val(&mut p, &t);
                assert!(p.eat_id("to"));
                let t2 = p.ty();
                let d = self.slot(&dst.unwrap(), &t2);
                if op == "bitcast" {
                    let (ew1, ew2) = (Self::elem_w(&t), Self::elem_w(&t2));
                    if ew1 == ew2 {
                        for k in 0..a.len() {
                            self.code.push(Inst::Mov { d: d + k as u32, a: a[k] });
                        }
                        return;
                    }
                    let total = ew1 * a.len() as u32;
                    if ew1 < ew2 {
                        // group consecutive elements
                        let per = (ew2 / ew1) as usize;
                        for (k, ch) in a.chunks(per).enumerate() {
                            self.code.push(Inst::Pack { d: d + k as u32, w: ew2 as u8, ew: ew1 as u8, parts: ch.to_vec().into() });
                        }
                    } else {
                        let per = ew1 / ew2;
                        for (k, x) in a.iter().enumerate() {
                            self.code.push(Inst::Unpack { d: d + k as u32 * per, n: per, ew: ew2 as u8, w: ew1 as u8, a: *x });
                        }
                    }
                    let _ = total;
                    return;
                }
                let f = Self::elem_w(&t);
                let tw = Self::elem_w(&t2);
                for k in 0..a.len() {
                    let dd = d + k as u32;
                    let ins = if f == tw {
                        Inst::Mov { d: dd, a: a[k] }
                    } else if op == "sext" {
                        Inst::Sext { d: dd, a: a[k], f: f as u8, t: tw as u8 }
                    } else if f < tw {
                        Inst::Zext { d: dd, a: a[k], f: f as u8, t: tw as u8 }
                    } else {
                        Inst::Trunc { d: dd, a: a[k], f: f as u8, t: tw as u8 }
                    };
                    self.code.push(ins);
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                let mut pred = String::new();
                while !p.at_type() {
                    if let Some(Tok::Id(s)) = p.peek() {
                        pred = s.clone();
                    }
                    p.i += 1;
                }
                let t = p.ty();
                let a = self.val(&mut p, &t);
                let b = if op == "fneg" {
                    vec![]
                } else {
                    p.want(',');
                    self.val(&mut p, &t)
                };
                let w = Self::elem_w(&t) as u8;
                let (f, w2) = match op.as_str() {
                    "fadd" => (Fp::Add, w),
                    "fsub" => (Fp::Sub, w),
                    "fmul" => (Fp::Mul, w),
                    "fdiv" => (Fp::Div, w),
                    "frem" => (Fp::Rem, w),
                    "fneg" => (Fp::Neg, w),
                    _ => {
                        let m = match pred.as_str() {
                            "false" => 0,
                            "true" => 15,
                            "ord" => 7,
                            "uno" => 8,
                            x => {
                                let u = if x.starts_with('u') { 8 } else { 0 };
                                u + match &x[1..] {
                                    "lt" => 1,
                                    "eq" => 2,
                                    "le" => 3,
                                    "gt" => 4,
                                    "ne" => 5,
                                    "ge" => 6,
                                    _ => panic!("fcmp {}", x),
                                }
                            }
                        };
                        (Fp::Cmp(m), 1)
                    }
                };
                let rt = match (&t, op.as_str()) {
                    (Ty::Vec(n, _), "fcmp") => Ty::Vec(*n, Box::new(Ty::Int(1))),
                    (_, "fcmp") => Ty::Int(1),
                    _ => t.clone(),
                };
                let d = self.slot(&dst.unwrap(), &rt);
                for k in 0..a.len() {
                    let mut args = vec![a[k]];
                    args.extend(b.get(k));
                    self.code.push(Inst::Fp { op: f, d: d + k as u32, w, w2, args: args.into() });
                }
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" => {
                while !p.at_type() {
                    p.i += 1;
                }
                let t = p.ty();
                let a = self.val(&mut p, &t);
                assert!(p.eat_id("to"));
                let t2 = p.ty();
                let d = self.slot(&dst.unwrap(), &t2);
                let (w, w2) = (Self::elem_w(&t) as u8, Self::elem_w(&t2) as u8);
                let f = match op.as_str() {
                    "uitofp" => Fp::FromU,
                    "sitofp" => Fp::FromS,
                    "fptoui" => Fp::ToU,
                    "fptosi" => Fp::ToS,
                    _ => Fp::Convert,
                };
                for k in 0..a.len() {
                    self.code.push(Inst::Fp { op: f, d: d + k as u32, w, w2, args: vec![a[k]].into() });
                }
            }
            "freeze" => {
                let t = p.ty();
                let a = self.val(&mut p, &t);
                let d = self.slot(&dst.unwrap(), &t);
                for k in 0..a.len() {
                    self.code.push(Inst::Mov { d: d + k as u32, a: a[k] });
                }
            }
            "select" => {
                while !p.at_type() {
                    p.i += 1;
                }
                let ct = p.ty();
                let c = self.val(&mut p, &ct);
                p.want(',');
                let t = p.ty();
                let a = self.val(&mut p, &t);
                p.want(',');
                let t2 = p.ty();
                let b = self.val(&mut p, &t2);
                let d = self.slot(&dst.unwrap(), &t);
                let sc = t.sc();
                for k in 0..a.len() {
                    let ck = if c.len() == 1 { c[0] } else { c[k] };
                    self.code.push(Inst::Select { d: d + k as u32, c: ck, a: a[k], b: b[k], w: sc[k].1 as u8 });
                }
            }
            "getelementptr" => {
                while !p.at_type() {
                    let fl = p.next();
                    if let Tok::Id(x) = &fl {
                        if x == "inrange" {
                            p.skip_parens();
                        }
                    }
                }
                let bt = p.ty();
                p.want(',');
                let (pt, b) = self.tyval(&mut p);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while p.eat(',') {
                    if !p.at_type() {
                        break;
                    }
                    let it = p.ty();
                    let iw = Self::elem_w(&it);
                    let iv = self.val(&mut p, &it)[0];
                    let kv = if iv < 0 { Some(sext64(self.consts[!iv as usize].c, iw)) } else { None };
                    let size;
                    if first {
                        size = bt.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                let (o, t) = cur.field_offset(kv.unwrap() as usize);
                                off += o as i64;
                                cur = t;
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                size = t.size();
                                cur = *t;
                            }
                            _ => panic!("gep"),
                        }
                    }
                    match kv {
                        Some(k) => off += k * size as i64,
                        None => idx.push((iv, size, iw as u8)),
                    }
                }
                if pt != Ty::Ptr {
                    self.code.push(Inst::Bad("vector gep".into()));
                    return;
                }
                let d = self.slot(&dst.unwrap(), &Ty::Ptr);
                let b = b[0];
                if idx.is_empty() {
                    self.code.push(Inst::GepC { d, b, off });
                } else if idx.len() == 1 && off == 0 && idx[0].2 == 64 {
                    self.code.push(Inst::Gep1 { d, b, i: idx[0].0, s: idx[0].1 });
                } else {
                    self.code.push(Inst::Gep { d, b, off, idx: idx.into() });
                }
            }
            "load" => {
                if p.eat_id("atomic") {
                    self.code.push(Inst::Sched(false));
                }
                p.eat_id("volatile");
                let t = p.ty();
                p.want(',');
                let (_, a) = self.tyval(&mut p);
                let d = self.slot(&dst.unwrap(), &t);
                self.load(d, &t, a[0]);
            }
            "store" => {
                if p.eat_id("atomic") {
                    self.code.push(Inst::Sched(false));
                }
                p.eat_id("volatile");
                let (t, v) = self.tyval(&mut p);
                p.want(',');
                let (_, a) = self.tyval(&mut p);
                self.store(&v, &t, a[0]);
            }
            "alloca" => {
                p.eat_id("inalloca");
                let t = p.ty();
                let mut n = self.kop(1, 64);
                let mut align = t.align().max(8);
                while p.eat(',') {
                    if p.eat_id("align") {
                        if let Tok::Num(k) = p.next() {
                            align = align.max(k.parse().unwrap());
                        }
                    } else if p.at_type() {
                        let nt = p.ty();
                        n = self.val(&mut p, &nt)[0];
                    } else {
                        break;
                    }
                }
                let d = self.slot(&dst.unwrap(), &Ty::Ptr);
                self.code.push(Inst::Alloca { d, size: t.size(), n, align });
            }
            "extractvalue" => {
                let (t, v) = self.tyval(&mut p);
                let mut base = 0;
                let mut cur = t;
                while p.eat(',') {
                    if let Some(Tok::Num(k)) = p.peek() {
                        let k: usize = k.parse().unwrap();
                        p.i += 1;
                        let (o, t2) = cur.member(k);
                        base += o;
                        cur = t2;
                    } else {
                        break;
                    }
                }
                let d = self.slot(&dst.unwrap(), &cur);
                for k in 0..cur.nsc() {
                    self.code.push(Inst::Mov { d: d + k as u32, a: v[base + k] });
                }
            }
            "insertvalue" => {
                let (t, mut v) = self.tyval(&mut p);
                p.want(',');
                let (_, x) = self.tyval(&mut p);
                let mut base = 0;
                let mut cur = t.clone();
                while p.eat(',') {
                    if let Some(Tok::Num(k)) = p.peek() {
                        let k: usize = k.parse().unwrap();
                        p.i += 1;
                        let (o, t2) = cur.member(k);
                        base += o;
                        cur = t2;
                    } else {
                        break;
                    }
                }
                for (k, o) in x.iter().enumerate() {
                    v[base + k] = *o;
                }
                let d = self.slot(&dst.unwrap(), &t);
                for k in 0..v.len() {
                    self.code.push(Inst::Mov { d: d + k as u32, a: v[k] });
                }
            }
            "extractelement" => {
                let (t, v) = self.tyval(&mut p);
                p.want(',');
                let (it, i) = self.tyval(&mut p);
                let et = match &t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => panic!(),
                };
                let d = self.slot(&dst.unwrap(), &et);
                if i[0] < 0 {
                    let k = self.consts[!i[0] as usize].c as usize;
                    self.code.push(Inst::Mov { d, a: v[k] });
                } else {
                    let base = self.nregs;
                    self.nregs += v.len() as u32;
                    for (k, o) in v.iter().enumerate() {
                        self.code.push(Inst::Mov { d: base + k as u32, a: *o });
                    }
                    self.code.push(Inst::ExtractDyn {
                        d,
                        base,
                        n: v.len() as u32,
                        i: i[0],
                        iw: Self::elem_w(&it) as u8,
                        w: Self::elem_w(&et) as u8,
                    });
                }
            }
            "insertelement" => {
                let (t, mut v) = self.tyval(&mut p);
                p.want(',');
                let (_, x) = self.tyval(&mut p);
                p.want(',');
                let (_, i) = self.tyval(&mut p);
                if i[0] >= 0 {
                    self.code.push(Inst::Bad("insertelement with a variable index".into()));
                    return;
                }
                let k = self.consts[!i[0] as usize].c as usize;
                v[k] = x[0];
                let d = self.slot(&dst.unwrap(), &t);
                for k in 0..v.len() {
                    self.code.push(Inst::Mov { d: d + k as u32, a: v[k] });
                }
            }
            "shufflevector" => {
                let (t, v) = self.tyval(&mut p);
                p.want(',');
                let (_, v2) = self.tyval(&mut p);
                p.want(',');
                p.skip_attrs();
                let mt = p.ty();
                let mask = self.m.konst(&mut p, &mt);
                let et = match &t {
                    Ty::Vec(_, e) => e.clone(),
                    _ => panic!(),
                };
                let rt = Ty::Vec(mask.len() as u32, et);
                let d = self.slot(&dst.unwrap(), &rt);
                for (k, m) in mask.iter().enumerate() {
                    let i = *m as usize;
                    let o = if i < v.len() { v[i] } else { v2[i - v.len()] };
                    self.code.push(Inst::Mov { d: d + k as u32, a: o });
                }
            }
            "atomicrmw" => {
                p.eat_id("volatile");
                let o = match p.next() {
                    Tok::Id(s) => s,
                    _ => panic!(),
                };
                let (_, a) = self.tyval(&mut p);
                p.want(',');
                let (t, v) = self.tyval(&mut p);
                let d = self.slot(&dst.unwrap_or_else(|| "$none".into()), &t);
                let op = match o.as_str() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "nand" => Rmw::Nand,
                    x => panic!("atomicrmw {}", x),
                };
                self.code.push(Inst::Sched(false));
                self.code.push(Inst::Rmw { op, d, p: a[0], v: v[0], w: Self::elem_w(&t) as u8 });
            }
            "cmpxchg" => {
                p.eat_id("weak");
                p.eat_id("volatile");
                let (_, a) = self.tyval(&mut p);
                p.want(',');
                let (t, c) = self.tyval(&mut p);
                p.want(',');
                let (_, n) = self.tyval(&mut p);
                let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
                let d = self.slot(&dst.unwrap(), &rt);
                self.code.push(Inst::Sched(false));
                self.code.push(Inst::CmpXchg { d, p: a[0], c: c[0], n: n[0], w: Self::elem_w(&t) as u8 });
            }
            "fence" => {}
            "landingpad" => {
                let t = p.ty();
                let _ = self.slot(&dst.unwrap(), &t);
                self.code.push(Inst::Unreachable);
            }
            "call" | "invoke" => self.call(&mut p, dst, op == "invoke", mk),
            x => {
                if let Some(n) = dst {
                    // give the destination a slot so that uses still lower
                    let _ = n;
                }
                self.code.push(Inst::Bad(format!("instruction {}", x)));
            }
        }
    }

    fn call(&mut self, p: &mut P, dst: Option<String>, invoke: bool, mk: &mut dyn FnMut(&mut Lower, &str) -> u32) {
        p.skip_attrs();
        let rt = p.ty();
        if p.is('(') {
            p.skip_parens();
        }
        // callee
        let mut asm = false;
        let callee = match p.peek() {
            Some(Tok::Global(g)) => {
                let g = g.clone();
                p.i += 1;
                Some(g)
            }
            Some(Tok::Local(_)) => None,
            Some(Tok::Id(s)) if s == "asm" => {
                asm = true;
                while !p.is('(') {
                    p.i += 1;
                }
                None
            }
            t => panic!("callee {:?}", t),
        };
        let mut ind = 0;
        if callee.is_none() && !asm {
            ind = self.val(p, &Ty::Ptr)[0];
        }
        let name = callee.clone().unwrap_or_default();
        let d = match &dst {
            Some(n) => self.slot(n, &rt),
            None => {
                let s = self.nregs;
                self.nregs += rt.nsc() as u32;
                s
            }
        };
        if asm {
            for k in 0..rt.nsc() {
                let z = self.kop(0, 64);
                self.code.push(Inst::Mov { d: d + k as u32, a: z });
            }
            return;
        }
        if name.starts_with("llvm.x86.sse2.pause") {
            self.code.push(Inst::Sched(true));
            return;
        }
        let nop = name.starts_with("llvm.experimental.noalias")
            || name.starts_with("llvm.lifetime")
            || name.starts_with("llvm.dbg")
            || name.starts_with("llvm.assume")
            || name.starts_with("llvm.prefetch")
            || name.starts_with("llvm.invariant");
        if nop {
            return;
        }
        p.want('(');
        let mut args: Vec<Op> = vec![];
        let mut arg_tys: Vec<Ty> = vec![];
        while !p.eat(')') {
            p.skip_attrs();
            let t = p.ty();
            if t == Ty::Meta {
                let mut depth = 0;
                loop {
                    match p.peek() {
                        Some(Tok::P('(')) | Some(Tok::P('{')) => depth += 1,
                        Some(Tok::P('}')) => depth -= 1,
                        Some(Tok::P(')')) if depth == 0 => break,
                        Some(Tok::P(')')) => depth -= 1,
                        Some(Tok::P(',')) if depth == 0 => break,
                        _ => {}
                    }
                    p.i += 1;
                }
            } else {
                p.skip_val_attrs();
                let v = self.val(p, &t);
                args.extend(v);
                arg_tys.push(t);
            }
            p.eat(',');
        }
        let mut after = None;
        if invoke {
            while !p.eat_id("to") {
                p.i += 1;
            }
            p.ty();
            if let Tok::Local(n) = p.next() {
                after = Some(mk(self, &n));
            }
        }
        if name.starts_with("llvm.") {
            self.intrinsic(&name, d, &rt, args, &arg_tys);
            if let Some(e) = after {
                self.code.push(Inst::Br(e));
            }
            return;
        }
        let f = match callee {
            Some(g) => match self.m.fidx.get(&g) {
                Some(&i) => Callee::Fun(i),
                None => {
                    self.code.push(Inst::Bad(format!("unknown function {}", g)));
                    return;
                }
            },
            None => Callee::Ind(ind),
        };
        self.code.push(Inst::Call { d, nd: rt.nsc() as u32, f, args: args.into(), after });
    }

    fn intrinsic(&mut self, name: &str, d: u32, rt: &Ty, args: Vec<Op>, tys: &[Ty]) {
        let n = &name[5..];
        let fp = match n.split('.').next() {
            Some("fptoui") => Some(Fp::ToU),
            Some("fptosi") => Some(Fp::ToS),
            Some("lrint" | "llrint") => None,
            Some(x) => Fp::named(x),
            None => None,
        };
        if let (Some(op), Some(Ty::Float | Ty::Double)) = (fp, tys.first()) {
            let (w, w2) = (Self::elem_w(&tys[0]) as u8, Self::elem_w(rt) as u8);
            self.code.push(Inst::Fp { op, d, w, w2, args: args.into() });
            return;
        }
        let is = |s: &str| n.starts_with(s);
        let k = if is("memcpy.") || is("memmove.") {
            Intr::Memcpy
        } else if is("memset.") {
            Intr::Memset
        } else if is("umin.") {
            Intr::UMin
        } else if is("umax.") {
            Intr::UMax
        } else if is("smin.") {
            Intr::SMin
        } else if is("smax.") {
            Intr::SMax
        } else if is("ctlz.") {
            Intr::Ctlz
        } else if is("cttz.") {
            Intr::Cttz
        } else if is("ctpop.") {
            Intr::Ctpop
        } else if is("fshl.") {
            Intr::Fshl
        } else if is("fshr.") {
            Intr::Fshr
        } else if is("bswap.") {
            Intr::Bswap
        } else if is("bitreverse.") {
            Intr::Bitreverse
        } else if is("abs.") {
            Intr::Abs
        } else if is("ucmp.") {
            Intr::Ucmp
        } else if is("scmp.") {
            Intr::Scmp
        } else if is("uadd.with.overflow") {
            Intr::UAddO
        } else if is("usub.with.overflow") {
            Intr::USubO
        } else if is("umul.with.overflow") {
            Intr::UMulO
        } else if is("sadd.with.overflow") {
            Intr::SAddO
        } else if is("ssub.with.overflow") {
            Intr::SSubO
        } else if is("smul.with.overflow") {
            Intr::SMulO
        } else if is("uadd.sat") {
            Intr::UAddSat
        } else if is("usub.sat") {
            Intr::USubSat
        } else if is("sadd.sat") {
            Intr::SAddSat
        } else if is("ssub.sat") {
            Intr::SSubSat
        } else if is("threadlocal.address") {
            Intr::Tls
        } else if is("expect") || is("launder") || is("strip") || is("ptr.annotation") || is("ssa.copy") {
            Intr::First
        } else if is("is.constant") || is("objectsize") {
            Intr::Zero
        } else if is("trap") || is("debugtrap") {
            Intr::Trap
        } else if is("vector.reduce.or") {
            Intr::ReduceOr
        } else if is("vector.reduce.and") {
            Intr::ReduceAnd
        } else if is("vector.reduce.add") {
            Intr::ReduceAdd
        } else if is("vector.reduce.umax") {
            Intr::ReduceUMax
        } else if is("vector.reduce.xor") {
            Intr::ReduceXor
        } else if is("stacksave") {
            Intr::Zero
        } else if is("stackrestore") {
            Intr::Nop
        } else {
            Intr::Unsupported
        };
        if k == Intr::Unsupported {
            self.code.push(Inst::Bad(format!("intrinsic {}", name)));
            return;
        }
        if is("ptrmask") {
            self.code.push(Inst::Bin { op: Bop::And, w: 64, d, a: args[0], b: args[1] });
            return;
        }
        let reduce = is("vector.reduce");
        if k == Intr::Memcpy || k == Intr::Memset || k == Intr::Nop || k == Intr::Trap {
            self.code.push(Inst::Intr { k, d, w: 0, w2: 0, args: args.into() });
            return;
        }
        if k == Intr::Zero || k == Intr::First {
            for i in 0..rt.nsc() {
                let a = if k == Intr::Zero { self.kop(0, 64) } else { args[i] };
                self.code.push(Inst::Mov { d: d + i as u32, a });
            }
            return;
        }
        let w = Self::elem_w(&tys[0]) as u8;
        let w2 = match rt {
            Ty::Int(w) => *w as u8,
            Ty::Vec(_, e) => Self::elem_w(e) as u8,
            _ => w,
        };
        if reduce {
            self.code.push(Inst::Intr { k, d, w, w2, args: args.into() });
            return;
        }
        if let (Ty::Vec(n, _), true) = (&tys[0], true) {
            let n = *n as usize;
            // elementwise over the vector arguments; scalar arguments shared
            for i in 0..n {
                let mut a = vec![];
                let mut o = 0;
                for t in tys {
                    match t {
                        Ty::Vec(..) => {
                            a.push(args[o + i]);
                            o += n;
                        }
                        _ => {
                            a.push(args[o]);
                            o += 1;
                        }
                    }
                }
                self.code.push(Inst::Intr { k, d: d + i as u32, w, w2, args: a.into() });
            }
            return;
        }
        self.code.push(Inst::Intr { k, d, w, w2, args: args.into() });
    }
}
