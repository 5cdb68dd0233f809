//! Hash-consed bit-vector expressions (width 1..=128) with simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pred {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Bop, E, E),
    Cmp(Pred, E, E),
    Zext(E),
    Sext(E),
    Extract(E, u16),
    Concat(E, E), // hi, lo
    Ite(E, E, E),
}

#[derive(Clone, Copy)]
pub struct Info {
    pub node: Node,
    pub w: u16,
    pub vs: u32,
}

/// A runtime scalar: concrete when `e == 0` (value in `c`, at most 64 bits),
/// otherwise the expression `e`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Val {
    pub e: E,
    pub c: u64,
}

impl Val {
    #[inline(always)]
    pub fn c(c: u64) -> Val {
        Val { e: 0, c }
    }
    #[inline(always)]
    pub fn is_c(self) -> bool {
        self.e == 0
    }
}

#[inline(always)]
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline(always)]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
#[inline(always)]
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn fold_bin(op: Bop, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask128(w);
    Some(
        m & match op {
            Bop::Add => a.wrapping_add(b),
            Bop::Sub => a.wrapping_sub(b),
            Bop::Mul => a.wrapping_mul(b),
            // SMT-LIB semantics for division by zero (never reached by valid code)
            Bop::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Bop::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Bop::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Bop::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Bop::And => a & b,
            Bop::Or => a | b,
            Bop::Xor => a ^ b,
            Bop::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Bop::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Bop::AShr => {
                let s = sext128(a, w);
                if b >= w as u128 {
                    (s >> 127) as u128
                } else {
                    (s >> b) as u128
                }
            }
        },
    )
}

pub fn fold_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Slt => sext128(a, w) < sext128(b, w),
        Pred::Sle => sext128(a, w) <= sext128(b, w),
    }
}

pub struct Ctx {
    pub n: Vec<Info>,
    map: HashMap<(Node, u16), E, BuildFx>,
    pub sets: Vec<Vec<u32>>,
    set_map: HashMap<Vec<u32>, u32>,
    union_cache: HashMap<(u32, u32), u32, BuildFx>,
    bits_cache: HashMap<E, [u64; 4], BuildFx>,
    pub var_w: HashMap<u32, u16>,
}

#[derive(Default, Clone, Copy)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl Fx {
    #[inline(always)]
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.add(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.add(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_u128(&mut self, v: u128) {
        self.add(v as u64);
        self.add((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.add(v as u64)
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            n: vec![],
            map: Default::default(),
            sets: vec![vec![]],
            set_map: HashMap::new(),
            union_cache: Default::default(),
            bits_cache: Default::default(),
            var_w: HashMap::new(),
        };
        c.set_map.insert(vec![], 0);
        // index 0 is "no expression"
        c.n.push(Info { node: Node::Const(0), w: 0, vs: 0 });
        c
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize].node
    }
    fn set_of(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&s) = self.set_map.get(&v) {
            return s;
        }
        let id = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.set_map.insert(v, id);
        id
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&s) = self.union_cache.get(&k) {
            return s;
        }
        let mut v = self.sets[a as usize].clone();
        v.extend_from_slice(&self.sets[b as usize]);
        v.sort();
        v.dedup();
        let s = self.set_of(v);
        self.union_cache.insert(k, s);
        s
    }
    pub fn vars(&self, e: E) -> &[u32] {
        &self.sets[self.n[e as usize].vs as usize]
    }
    /// The only variable of `e`, if there is exactly one.
    pub fn single(&self, e: E) -> Option<u32> {
        let s = self.vars(e);
        if s.len() == 1 {
            Some(s[0])
        } else {
            None
        }
    }
    fn mk(&mut self, node: Node, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        let k = (node, w as u16);
        if let Some(&e) = self.map.get(&k) {
            return e;
        }
        let vs = match node {
            Node::Const(_) => 0,
            Node::Var(v) => {
                self.var_w.insert(v, w as u16);
                self.set_of(vec![v])
            }
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                let (x, y) = (self.n[a as usize].vs, self.n[b as usize].vs);
                self.union(x, y)
            }
            Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => self.n[a as usize].vs,
            Node::Ite(c, a, b) => {
                let (x, y, z) = (self.n[c as usize].vs, self.n[a as usize].vs, self.n[b as usize].vs);
                let u = self.union(x, y);
                self.union(u, z)
            }
        };
        let e = self.n.len() as E;
        self.n.push(Info { node, w: w as u16, vs });
        self.map.insert(k, e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(Node::Const(v & mask128(w)), w)
    }
    pub fn var(&mut self, id: u32, w: u32) -> E {
        self.mk(Node::Var(id), w)
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        match self.n[e as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn to_e(&mut self, v: Val, w: u32) -> E {
        if v.e == 0 {
            self.konst(v.c as u128, w)
        } else {
            v.e
        }
    }
    pub fn of_e(&self, e: E) -> Val {
        let i = &self.n[e as usize];
        if let Node::Const(c) = i.node {
            if i.w <= 64 {
                return Val::c(c as u64);
            }
        }
        Val { e, c: 0 }
    }
    /// The full constant value of a scalar, if it has one.
    pub fn val_const(&self, v: Val) -> Option<u128> {
        if v.e == 0 {
            Some(v.c as u128)
        } else {
            self.cv(v.e)
        }
    }

    pub fn not1(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        let one = self.konst(1, 1);
        self.bin(Bop::Xor, a, one)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Bop::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Bop::Or, a, b)
    }
    pub fn eqc(&mut self, a: E, v: u128) -> E {
        let w = self.w(a);
        let k = self.konst(v, w);
        self.cmp(Pred::Eq, a, k)
    }

    pub fn bin(&mut self, op: Bop, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask128(w);
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold_bin(op, w, x, y).unwrap();
            return self.konst(v, w);
        }
        // constants to the right for commutative operators
        if matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        let zero = |s: &mut Ctx| s.konst(0, w);
        match op {
            Bop::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Node::Bin(Bop::Add, x, k)) = (cb, self.node(a)) {
                    if let Some(kc) = self.cv(k) {
                        let s = self.konst(kc.wrapping_add(y), w);
                        return self.bin(Bop::Add, x, s);
                    }
                }
                if w == 1 {
                    return self.bin(Bop::Xor, a, b);
                }
            }
            Bop::Sub => {
                if a == b {
                    return zero(self);
                }
                if let Some(y) = cb {
                    let n = self.konst(0u128.wrapping_sub(y), w);
                    return self.bin(Bop::Add, a, n);
                }
            }
            Bop::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Bop::Shl, a, s);
                    }
                }
            }
            Bop::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Bop::LShr, a, s);
                    }
                }
            }
            Bop::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.konst(y - 1, w);
                        return self.bin(Bop::And, a, s);
                    }
                }
            }
            Bop::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(y) = cb {
                    match self.node(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            let k = self.konst(y, xw);
                            let r = self.bin(Bop::And, x, k);
                            return self.zext(r, w);
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kl = self.konst(y & mask128(lw), lw);
                            let kh = self.konst(y >> lw, hw);
                            let rl = self.bin(Bop::And, l, kl);
                            let rh = self.bin(Bop::And, h, kh);
                            return self.concat(rh, rl);
                        }
                        Node::Ite(c, x, z) if self.cv(x).is_some() || self.cv(z).is_some() => {
                            let r1 = self.bin(Bop::And, x, b);
                            let r2 = self.bin(Bop::And, z, b);
                            return self.ite(c, r1, r2);
                        }
                        _ => {}
                    }
                    // contiguous low mask
                    if w > 1 && (y + 1).is_power_of_two() && y != 0 {
                        let k = (y + 1).trailing_zeros();
                        if k < w {
                            let x = self.extract(a, 0, k);
                            return self.zext(x, w);
                        }
                    }
                }
                if w == 1 {
                    let na = self.not1_raw(a);
                    if na == Some(b) || self.not1_raw(b) == Some(a) {
                        return zero(self);
                    }
                }
            }
            Bop::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                // disjoint zext / shl-of-zext composition becomes a concat
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
                if let (Some(y), Node::Concat(h, l)) = (cb, self.node(a)) {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kl = self.konst(y & mask128(lw), lw);
                    let kh = self.konst(y >> lw, hw);
                    let rl = self.bin(Bop::Or, l, kl);
                    let rh = self.bin(Bop::Or, h, kh);
                    return self.concat(rh, rl);
                }
                if w == 1 && (self.not1_raw(a) == Some(b) || self.not1_raw(b) == Some(a)) {
                    return self.konst(1, 1);
                }
            }
            Bop::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return zero(self);
                }
                if w == 1 && cb == Some(1) {
                    match self.node(a) {
                        Node::Bin(Bop::Xor, x, k) if self.cv(k) == Some(1) => return x,
                        Node::Cmp(Pred::Ult, x, y) => return self.cmp(Pred::Ule, y, x),
                        Node::Cmp(Pred::Ule, x, y) => return self.cmp(Pred::Ult, y, x),
                        Node::Cmp(Pred::Slt, x, y) => return self.cmp(Pred::Sle, y, x),
                        Node::Cmp(Pred::Sle, x, y) => return self.cmp(Pred::Slt, y, x),
                        Node::Ite(c, x, y) => {
                            let nx = self.not1(x);
                            let ny = self.not1(y);
                            return self.ite(c, nx, ny);
                        }
                        _ => {}
                    }
                }
                if let (Some(y), Node::Zext(x)) = (cb, self.node(a)) {
                    let xw = self.w(x);
                    if y <= mask128(xw) {
                        let k = self.konst(y, xw);
                        let r = self.bin(Bop::Xor, x, k);
                        return self.zext(r, w);
                    }
                }
                if let (Some(y), Node::Bin(Bop::Xor, x, k)) = (cb, self.node(a)) {
                    if let Some(kc) = self.cv(k) {
                        let s = self.konst(kc ^ y, w);
                        return self.bin(Bop::Xor, x, s);
                    }
                }
            }
            Bop::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return zero(self);
                    }
                    let s = y as u32;
                    let lo = self.extract(a, 0, w - s);
                    let z = self.konst(0, s);
                    return self.concat(lo, z);
                }
            }
            Bop::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return zero(self);
                    }
                    let s = y as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.zext(hi, w);
                }
            }
            Bop::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let s = (y.min(w as u128 - 1)) as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
            }
            _ => {}
        }
        // push unary constant operations through ite with constant leaves
        if cb.is_some() {
            if let Node::Ite(c, x, y) = self.node(a) {
                if self.cv(x).is_some() && self.cv(y).is_some() {
                    let r1 = self.bin(op, x, b);
                    let r2 = self.bin(op, y, b);
                    return self.ite(c, r1, r2);
                }
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }

    fn not1_raw(&self, a: E) -> Option<E> {
        match self.node(a) {
            Node::Bin(Bop::Xor, x, k) if self.w(a) == 1 && self.cv(k) == Some(1) => Some(x),
            _ => None,
        }
    }

    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // (hi ++ 0..0) | zext(lo) with width(lo) <= number of zero bits
        let try_one = |s: &mut Ctx, x: E, y: E| -> Option<E> {
            if let Node::Concat(h, l) = s.node(x) {
                if s.cv(l) == Some(0) {
                    let lw = s.w(l);
                    match s.node(y) {
                        Node::Zext(z) if s.w(z) <= lw => {
                            let low = s.zext(z, lw);
                            return Some(s.concat(h, low));
                        }
                        Node::Const(k) if k <= mask128(lw) => {
                            let low = s.konst(k, lw);
                            return Some(s.concat(h, low));
                        }
                        Node::Concat(h2, l2) => {
                            // y = zeros ++ l2
                            if s.cv(h2) == Some(0) && s.w(l2) <= lw {
                                let low = s.zext(l2, lw);
                                return Some(s.concat(h, low));
                            }
                        }
                        _ => {}
                    }
                }
            }
            None
        };
        let _ = w;
        if let Some(r) = try_one(self, a, b) {
            return Some(r);
        }
        try_one(self, b, a)
    }

    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(fold_cmp(p, w, x, y) as u128, 1);
        }
        if a == b {
            let r = matches!(p, Pred::Eq | Pred::Ule | Pred::Sle);
            return self.konst(r as u128, 1);
        }
        let m = mask128(w);
        match p {
            Pred::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                    std::mem::swap(&mut ca, &mut cb);
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not1(a) };
                    }
                    match self.node(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if y > mask128(xw) {
                                return self.konst(0, 1);
                            }
                            return self.eqc(x, y);
                        }
                        Node::Sext(x) => {
                            let xw = self.w(x);
                            let t = y & mask128(xw);
                            if (sext128(t, xw) as u128) & m != y {
                                return self.konst(0, 1);
                            }
                            return self.eqc(x, t);
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let r1 = self.eqc(h, y >> lw);
                            if self.cv(r1) == Some(0) {
                                return r1;
                            }
                            let r2 = self.eqc(l, y & mask128(lw));
                            return self.and1(r1, r2);
                        }
                        Node::Bin(Bop::Add, x, k) => {
                            if let Some(kc) = self.cv(k) {
                                return self.eqc(x, y.wrapping_sub(kc) & m);
                            }
                        }
                        Node::Bin(Bop::Xor, x, k) => {
                            if let Some(kc) = self.cv(k) {
                                return self.eqc(x, y ^ kc);
                            }
                            if y == 0 {
                                return self.cmp(Pred::Eq, x, k);
                            }
                        }
                        Node::Bin(Bop::Sub, x, z) if y == 0 => return self.cmp(Pred::Eq, x, z),
                        Node::Bin(Bop::Or, x, z) if y == 0 => {
                            let r1 = self.eqc(x, 0);
                            let r2 = self.eqc(z, 0);
                            return self.and1(r1, r2);
                        }
                        Node::Ite(c, x, z) => {
                            if self.cv(x).is_some() || self.cv(z).is_some() {
                                let r1 = self.eqc(x, y);
                                let r2 = self.eqc(z, y);
                                return self.ite(c, r1, r2);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (Node::Zext(x), Node::Zext(y)) if self.w(x) == self.w(y) => return self.cmp(Pred::Eq, x, y),
                        (Node::Sext(x), Node::Sext(y)) if self.w(x) == self.w(y) => return self.cmp(Pred::Eq, x, y),
                        _ => {}
                    }
                }
            }
            Pred::Ult => {
                if cb == Some(0) {
                    return self.konst(0, 1);
                }
                if ca == Some(m) {
                    return self.konst(0, 1);
                }
                if cb == Some(1) {
                    return self.eqc(a, 0);
                }
                if ca == Some(0) {
                    let z = self.eqc(b, 0);
                    return self.not1(z);
                }
                if let Some(y) = cb {
                    match self.node(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if y > mask128(xw) {
                                return self.konst(1, 1);
                            }
                            let k = self.konst(y, xw);
                            return self.cmp(p, x, k);
                        }
                        Node::Ite(c, x, z) if self.cv(x).is_some() || self.cv(z).is_some() => {
                            let r1 = self.cmp(p, x, b);
                            let r2 = self.cmp(p, z, b);
                            return self.ite(c, r1, r2);
                        }
                        _ => {}
                    }
                }
                if let Some(x) = ca {
                    match self.node(b) {
                        Node::Zext(y) => {
                            let yw = self.w(y);
                            if x >= mask128(yw) {
                                return self.konst(0, 1);
                            }
                            let k = self.konst(x, yw);
                            return self.cmp(p, k, y);
                        }
                        Node::Ite(c, u, z) if self.cv(u).is_some() || self.cv(z).is_some() => {
                            let r1 = self.cmp(p, a, u);
                            let r2 = self.cmp(p, a, z);
                            return self.ite(c, r1, r2);
                        }
                        _ => {}
                    }
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(p, x, y);
                    }
                }
            }
            Pred::Ule => {
                if let Some(y) = cb {
                    if y == m {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(y + 1, w);
                    return self.cmp(Pred::Ult, a, k);
                }
                if let Some(x) = ca {
                    if x == 0 {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(x - 1, w);
                    return self.cmp(Pred::Ult, k, b);
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(p, x, y);
                    }
                }
            }
            Pred::Slt | Pred::Sle => {
                if let (Node::Zext(x), Some(y)) = (self.node(a), cb) {
                    if self.w(x) < w {
                        if sext128(y, w) < 0 {
                            return self.konst(0, 1);
                        }
                        let p2 = if p == Pred::Slt { Pred::Ult } else { Pred::Ule };
                        return self.cmp(p2, a, b);
                    }
                }
                if let (Some(x), Node::Zext(y)) = (ca, self.node(b)) {
                    if self.w(y) < w {
                        if sext128(x, w) < 0 {
                            return self.konst(1, 1);
                        }
                        let p2 = if p == Pred::Slt { Pred::Ult } else { Pred::Ule };
                        return self.cmp(p2, a, b);
                    }
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
                    if self.w(x) < w && self.w(y) < w {
                        let p2 = if p == Pred::Slt { Pred::Ult } else { Pred::Ule };
                        return self.cmp(p2, a, b);
                    }
                }
                if let (Node::Ite(c, x, z), true) = (self.node(a), cb.is_some()) {
                    if self.cv(x).is_some() || self.cv(z).is_some() {
                        let r1 = self.cmp(p, x, b);
                        let r2 = self.cmp(p, z, b);
                        return self.ite(c, r1, r2);
                    }
                }
            }
        }
        self.mk(Node::Cmp(p, a, b), 1)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match self.node(a) {
            Node::Const(c) => self.konst(c, w),
            Node::Zext(x) => self.zext(x, w),
            Node::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let r1 = self.zext(x, w);
                let r2 = self.zext(y, w);
                self.ite(c, r1, r2)
            }
            _ => self.mk(Node::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => self.konst(sext128(c, aw) as u128, w),
            Node::Sext(x) => self.sext(x, w),
            Node::Zext(x) if self.w(x) < aw => self.zext(x, w),
            Node::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let r1 = self.sext(x, w);
                let r2 = self.sext(y, w);
                self.ite(c, r1, r2)
            }
            _ => self.mk(Node::Sext(a), w),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if w == aw {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => self.konst(c >> lo, w),
            Node::Extract(x, l2) => self.extract(x, lo + l2 as u32, w),
            Node::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.konst(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let p = self.extract(x, lo, xw - lo);
                    self.zext(p, w)
                }
            }
            Node::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo == 0 {
                    self.sext(x, w)
                } else {
                    self.mk(Node::Extract(a, lo as u16), w)
                }
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let pl = self.extract(l, lo, lw - lo);
                    let ph = self.extract(h, 0, lo + w - lw);
                    self.concat(ph, pl)
                }
            }
            Node::Ite(c, x, y) => {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let r1 = self.extract(x, lo, w);
                    let r2 = self.extract(y, lo, w);
                    self.ite(c, r1, r2)
                } else {
                    self.mk(Node::Extract(a, lo as u16), w)
                }
            }
            Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
                let r1 = self.extract(x, lo, w);
                let r2 = self.extract(y, lo, w);
                self.bin(op, r1, r2)
            }
            Node::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), x, y) if lo == 0 => {
                let r1 = self.extract(x, 0, w);
                let r2 = self.extract(y, 0, w);
                self.bin(op, r1, r2)
            }
            _ => self.mk(Node::Extract(a, lo as u16), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.konst((x << lw) | y, w);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Node::Extract(x, hl), Node::Extract(y, ll)) = (self.node(h), self.node(l)) {
            if x == y && ll as u32 + lw == hl as u32 {
                return self.extract(x, ll as u32, w);
            }
        }
        // extract(x, lw, hw) ++ x' where x' is the low part of x itself
        if let Node::Extract(x, hl) = self.node(h) {
            if let Node::Concat(h2, l2) = self.node(l) {
                // h ++ (h2 ++ l2): merge h with h2 when adjacent
                if let Node::Extract(y, l2l) = self.node(h2) {
                    if x == y && l2l as u32 + self.w(h2) == hl as u32 {
                        let hh = self.extract(x, l2l as u32, hw + self.w(h2));
                        return self.concat(hh, l2);
                    }
                }
            }
        }
        // zext(x) pieces: h = extract(zext..)=0 handled above
        // right-associate constants: (a ++ k1) ++ k2
        if let (Node::Concat(a, k1), Some(k2)) = (self.node(h), self.cv(l)) {
            if let Some(k1c) = self.cv(k1) {
                let kw = self.w(k1) + lw;
                let k = self.konst((k1c << lw) | k2, kw);
                return self.concat(a, k);
            }
        }
        if let (Node::Zext(x), true) = (self.node(h), true) {
            // zext(x) ++ l  ==  zext(x ++ l)
            let r = self.concat(x, l);
            return self.zext(r, w);
        }
        if let (Node::Ite(c, x, y), Node::Ite(c2, x2, y2)) = (self.node(h), self.node(l)) {
            if c == c2 && (self.cv(x).is_some() && self.cv(x2).is_some()) && (self.cv(y).is_some() && self.cv(y2).is_some()) {
                let r1 = self.concat(x, x2);
                let r2 = self.concat(y, y2);
                return self.ite(c, r1, r2);
            }
        }
        self.mk(Node::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.w(c), 1);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        if let Some(nc) = self.not1_raw(c) {
            return self.ite(nc, b, a);
        }
        if let Node::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, x, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                // ite(c, a, ite(c2, a, y)) = ite(c|c2, a, y)
                let o = self.or1(c, c2);
                return self.ite(o, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    // ---- Val level -----------------------------------------------------

    #[inline]
    pub fn vbin(&mut self, op: Bop, w: u32, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let m = mask64(w);
            let (x, y) = (a.c, b.c);
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bop::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => fold_bin(op, w, x as u128, y as u128).unwrap() as u64,
            };
            return Val::c(r & m);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = self.bin(op, x, y);
        self.of_e(r)
    }
    #[inline]
    pub fn vcmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let (x, y) = (a.c, b.c);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Slt => sext64(x, w) < sext64(y, w),
                Pred::Sle => sext64(x, w) <= sext64(y, w),
            };
            return Val::c(r as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = self.cmp(p, x, y);
        self.of_e(r)
    }
    pub fn vite(&mut self, w: u32, c: Val, a: Val, b: Val) -> Val {
        if c.e == 0 {
            return if c.c & 1 == 1 { a } else { b };
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = self.ite(c.e, x, y);
        self.of_e(r)
    }
    pub fn vzext(&mut self, v: Val, from: u32, to: u32) -> Val {
        if v.e == 0 && to <= 64 {
            return v;
        }
        let e = self.to_e(v, from);
        let r = self.zext(e, to);
        self.of_e(r)
    }
    pub fn vsext(&mut self, v: Val, from: u32, to: u32) -> Val {
        if v.e == 0 && to <= 64 {
            return Val::c(sext64(v.c, from) as u64 & mask64(to));
        }
        let e = self.to_e(v, from);
        let r = self.sext(e, to);
        self.of_e(r)
    }
    pub fn vextract(&mut self, v: Val, from: u32, lo: u32, w: u32) -> Val {
        if v.e == 0 && from <= 64 {
            return Val::c((v.c >> lo) & mask64(w));
        }
        let e = self.to_e(v, from);
        let r = self.extract(e, lo, w);
        self.of_e(r)
    }
    pub fn vconcat(&mut self, h: Val, hw: u32, l: Val, lw: u32) -> Val {
        if h.e == 0 && l.e == 0 && hw + lw <= 64 {
            return Val::c((h.c << lw) | l.c);
        }
        let x = self.to_e(h, hw);
        let y = self.to_e(l, lw);
        let r = self.concat(x, y);
        self.of_e(r)
    }

    // ---- evaluation ----------------------------------------------------

    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u64) -> u128 {
        let mut memo: HashMap<E, u128, BuildFx> = Default::default();
        self.eval_memo(e, model, &mut memo)
    }
    fn eval_memo(&self, e: E, model: &dyn Fn(u32) -> u64, memo: &mut HashMap<E, u128, BuildFx>) -> u128 {
        let i = self.n[e as usize];
        match i.node {
            Node::Const(c) => return c,
            Node::Var(v) => return model(v) as u128 & mask128(i.w as u32),
            _ => {}
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let w = i.w as u32;
        let r = match i.node {
            Node::Bin(op, a, b) => {
                let x = self.eval_memo(a, model, memo);
                let y = self.eval_memo(b, model, memo);
                fold_bin(op, w, x, y).unwrap()
            }
            Node::Cmp(p, a, b) => {
                let x = self.eval_memo(a, model, memo);
                let y = self.eval_memo(b, model, memo);
                fold_cmp(p, self.w(a), x, y) as u128
            }
            Node::Zext(a) => self.eval_memo(a, model, memo),
            Node::Sext(a) => (sext128(self.eval_memo(a, model, memo), self.w(a)) as u128) & mask128(w),
            Node::Extract(a, lo) => (self.eval_memo(a, model, memo) >> lo) & mask128(w),
            Node::Concat(h, l) => (self.eval_memo(h, model, memo) << self.w(l)) | self.eval_memo(l, model, memo),
            Node::Ite(c, a, b) => {
                if self.eval_memo(c, model, memo) == 1 {
                    self.eval_memo(a, model, memo)
                } else {
                    self.eval_memo(b, model, memo)
                }
            }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    /// Values of `e` (whose only variable is a byte) for all 256 byte values.
    pub fn table(&self, e: E) -> Vec<u128> {
        (0..256u64).map(|v| self.eval(e, &|_| v)).collect()
    }
    /// For a width-1 expression over one byte variable: the set of byte
    /// values that make it true.
    pub fn bits(&mut self, e: E) -> [u64; 4] {
        if let Some(b) = self.bits_cache.get(&e) {
            return *b;
        }
        let mut r = [0u64; 4];
        match self.node(e) {
            Node::Bin(Bop::And, a, b) => {
                let (x, y) = (self.bits(a), self.bits(b));
                for i in 0..4 {
                    r[i] = x[i] & y[i];
                }
            }
            Node::Bin(Bop::Or, a, b) => {
                let (x, y) = (self.bits(a), self.bits(b));
                for i in 0..4 {
                    r[i] = x[i] | y[i];
                }
            }
            Node::Bin(Bop::Xor, a, b) => {
                let (x, y) = (self.bits(a), self.bits(b));
                for i in 0..4 {
                    r[i] = x[i] ^ y[i];
                }
            }
            Node::Const(c) => {
                if c == 1 {
                    r = [u64::MAX; 4];
                }
            }
            _ => {
                for v in 0..256u64 {
                    if self.eval(e, &|_| v) == 1 {
                        r[(v >> 6) as usize] |= 1 << (v & 63);
                    }
                }
            }
        }
        self.bits_cache.insert(e, r);
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return format!("#{}", e);
        }
        let d = depth - 1;
        match self.node(e) {
            Node::Const(c) => format!("{}:{}", c, self.w(e)),
            Node::Var(v) => format!("v{}", v),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            Node::Cmp(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            Node::Zext(a) => format!("(zext{} {})", self.w(e), self.show(a, d)),
            Node::Sext(a) => format!("(sext{} {})", self.w(e), self.show(a, d)),
            Node::Extract(a, l) => format!("{}[{}+{}]", self.show(a, d), l, self.w(e)),
            Node::Concat(a, b) => format!("({} ++ {})", self.show(a, d), self.show(b, d)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
        }
    }
}
