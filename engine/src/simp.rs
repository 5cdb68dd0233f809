//! Simplification of an expression under the byte domains of a path: terms
//! over one byte variable are brought to a canonical form (valid for the
//! values the variable can still take) and comparisons are decided by
//! unsigned intervals where these suffice.
use crate::expr::*;
use std::collections::HashMap;

type Dom = [u64; 4];

#[derive(Default)]
pub struct Simp {
    cache: HashMap<(E, u64), E>,
    icache: HashMap<(E, u64), (u128, u128)>,
    canon: HashMap<(u32, Dom, u32, Vec<u128>), E>,
    dom_e: HashMap<(u32, Dom), E>,
}

fn mixh(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x.wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (x >> 32)
}

impl Simp {
    fn key(x: &Ctx, doms: &[Dom], e: E) -> u64 {
        let mut h = 0u64;
        for &v in x.vars(e) {
            if x.var_w[&v] == 8 {
                for d in doms[(v >> 2) as usize] {
                    h = mixh(h, d);
                }
            }
        }
        h
    }
    fn full(d: &Dom) -> bool {
        *d == [u64::MAX; 4]
    }
    /// `v` lies in `d`, as a constraint (the constant true for a full domain).
    pub fn dom_expr(&mut self, x: &mut Ctx, v: u32, d: &Dom) -> E {
        if let Some(&e) = self.dom_e.get(&(v, *d)) {
            return e;
        }
        let ve = x.var(v, 8);
        let mut e = x.konst(0, 1);
        let mut i = 0u32;
        let has = |i: u32| d[(i >> 6) as usize] >> (i & 63) & 1 == 1;
        while i < 256 {
            if !has(i) {
                i += 1;
                continue;
            }
            let lo = i;
            while i < 256 && has(i) {
                i += 1;
            }
            let hi = i - 1;
            let l = x.konst(lo as u128, 8);
            let h = x.konst(hi as u128, 8);
            let c = if lo == hi {
                x.cmp(Pred::Eq, ve, l)
            } else {
                let a = x.cmp(Pred::Ule, l, ve);
                let b = x.cmp(Pred::Ule, ve, h);
                x.and1(a, b)
            };
            e = x.or1(e, c);
        }
        self.dom_e.insert((v, *d), e);
        e
    }
    fn canonical(&mut self, x: &mut Ctx, doms: &[Dom], v: u32, e: E) -> E {
        let d = doms[(v >> 2) as usize];
        let w = x.w(e);
        let mut t = Vec::new();
        let mut vals = vec![];
        for b in 0..256u64 {
            if d[(b >> 6) as usize] >> (b & 63) & 1 == 1 {
                t.push(x.eval(e, &|_| b));
                vals.push(b as u128);
            }
        }
        if t.is_empty() {
            return e;
        }
        if t.iter().all(|y| *y == t[0]) {
            return x.konst(t[0], w);
        }
        let k = (v, d, w, t);
        if let Some(&r) = self.canon.get(&k) {
            return r;
        }
        let mut r = e;
        if w >= 8 {
            let m = mask128(w);
            let off = k.3[0].wrapping_sub(vals[0]) & m;
            if k.3.iter().zip(&vals).all(|(y, b)| y.wrapping_sub(*b) & m == off) {
                let ve = x.var(v, 8);
                let z = x.zext(ve, w);
                let o = x.konst(off, w);
                r = x.bin(Bop::Add, z, o);
            }
        } else if w == 1 && !Self::full(&d) {
            // the set of values, within the domain
            let mut s = [0u64; 4];
            for (y, b) in k.3.iter().zip(&vals) {
                if *y == 1 {
                    s[(*b >> 6) as usize] |= 1 << (*b & 63);
                }
            }
            r = self.dom_expr(x, v, &s);
        }
        self.canon.insert(k, r);
        r
    }
    pub fn simp(&mut self, x: &mut Ctx, doms: &[Dom], e: E) -> E {
        if let Node::Const(_) | Node::Var(_) = x.node(e) {
            if let Node::Var(v) = x.node(e) {
                if x.var_w[&v] == 8 {
                    return self.canonical(x, doms, v, e);
                }
            }
            return e;
        }
        let h = Self::key(x, doms, e);
        if let Some(&r) = self.cache.get(&(e, h)) {
            return r;
        }
        let single = match x.single(e) {
            Some(v) if x.var_w[&v] == 8 => Some(v),
            _ => None,
        };
        let r = if let Some(v) = single {
            self.canonical(x, doms, v, e)
        } else {
            let w = x.w(e);
            match x.node(e) {
                Node::Bin(op, a, b) => {
                    let p = self.simp(x, doms, a);
                    let q = self.simp(x, doms, b);
                    x.bin(op, p, q)
                }
                Node::Cmp(pr, a, b) => {
                    let p = self.simp(x, doms, a);
                    let q = self.simp(x, doms, b);
                    let c = x.cmp(pr, p, q);
                    self.cmp_iv(x, doms, c)
                }
                Node::Zext(a) => {
                    let p = self.simp(x, doms, a);
                    x.zext(p, w)
                }
                Node::Sext(a) => {
                    let p = self.simp(x, doms, a);
                    x.sext(p, w)
                }
                Node::Extract(a, lo) => {
                    let p = self.simp(x, doms, a);
                    x.extract(p, lo as u32, w)
                }
                Node::Concat(a, b) => {
                    let p = self.simp(x, doms, a);
                    let q = self.simp(x, doms, b);
                    x.concat(p, q)
                }
                Node::Ite(c, a, b) => {
                    let c = self.simp(x, doms, c);
                    match x.cv(c) {
                        Some(1) => self.simp(x, doms, a),
                        Some(_) => self.simp(x, doms, b),
                        None => {
                            let p = self.simp(x, doms, a);
                            let q = self.simp(x, doms, b);
                            x.ite(c, p, q)
                        }
                    }
                }
                _ => e,
            }
        };
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert((e, h), r);
        r
    }
    fn cmp_iv(&mut self, x: &mut Ctx, doms: &[Dom], c: E) -> E {
        let (p, a, b) = match x.node(c) {
            Node::Cmp(p, a, b) => (p, a, b),
            _ => return c,
        };
        let w = x.w(a);
        let (al, ah) = self.iv(x, doms, a);
        let (bl, bh) = self.iv(x, doms, b);
        let half = 1u128 << (w - 1);
        let r = match p {
            Pred::Eq if ah < bl || bh < al => Some(0),
            Pred::Ult if ah < bl => Some(1),
            Pred::Ult if al >= bh => Some(0),
            Pred::Ule if ah <= bl => Some(1),
            Pred::Ule if al > bh => Some(0),
            Pred::Slt | Pred::Sle if ah < half && bh < half => {
                if p == Pred::Slt {
                    if ah < bl {
                        Some(1)
                    } else if al >= bh {
                        Some(0)
                    } else {
                        None
                    }
                } else if ah <= bl {
                    Some(1)
                } else if al > bh {
                    Some(0)
                } else {
                    None
                }
            }
            // non-negative against negative
            Pred::Slt | Pred::Sle if ah < half && bl >= half => Some(0),
            Pred::Slt | Pred::Sle if al >= half && bh < half => Some(1),
            _ => None,
        };
        match r {
            Some(k) => x.konst(k, 1),
            None => c,
        }
    }
    /// Unsigned bounds of `e`.
    fn iv(&mut self, x: &Ctx, doms: &[Dom], e: E) -> (u128, u128) {
        let w = x.w(e);
        let m = mask128(w);
        if let Node::Const(c) = x.node(e) {
            return (c, c);
        }
        let h = Self::key(x, doms, e);
        if let Some(&r) = self.icache.get(&(e, h)) {
            return r;
        }
        let r = if let (Some(v), true) = (x.single(e), x.single(e).map_or(false, |v| x.var_w[&v] == 8)) {
            let d = doms[(v >> 2) as usize];
            let (mut lo, mut hi) = (m, 0);
            for b in 0..256u64 {
                if d[(b >> 6) as usize] >> (b & 63) & 1 == 1 {
                    let y = x.eval(e, &|_| b);
                    lo = lo.min(y);
                    hi = hi.max(y);
                }
            }
            if lo > hi {
                (0, m)
            } else {
                (lo, hi)
            }
        } else {
            match x.node(e) {
                Node::Bin(op, a, b) => {
                    let (al, ah) = self.iv(x, doms, a);
                    let (bl, bh) = self.iv(x, doms, b);
                    match op {
                        Bop::Add => match (al.checked_add(bl), ah.checked_add(bh)) {
                            (Some(l), Some(h)) if h <= m => (l, h),
                            // both ends wrap (adding a negative constant)
                            _ if w < 128 && al + bl > m => ((al + bl) & m, (ah + bh) & m),
                            _ if w == 128 && al.checked_add(bl).is_none() && ah.checked_add(bh).is_none() => {
                                (al.wrapping_add(bl), ah.wrapping_add(bh))
                            }
                            _ => (0, m),
                        },
                        Bop::Sub if al >= bh => (al - bh, ah - bl),
                        Bop::Mul => match (al.checked_mul(bl), ah.checked_mul(bh)) {
                            (Some(l), Some(h)) if h <= m => (l, h),
                            _ => (0, m),
                        },
                        Bop::UDiv if bl > 0 => (al / bh, ah / bl),
                        Bop::URem if bl > 0 => (if ah < bl { al } else { 0 }, ah.min(bh - 1)),
                        Bop::And => (0, ah.min(bh)),
                        Bop::Or | Bop::Xor => {
                            let t = ah | bh;
                            let n = 128 - t.leading_zeros();
                            (if op == Bop::Or { al.max(bl) } else { 0 }, if n >= 128 { m } else { (1u128 << n) - 1 })
                        }
                        Bop::Shl if bl == bh && bl < w as u128 && ah <= (m >> bl) => (al << bl, ah << bl),
                        Bop::LShr if bl == bh && bl < w as u128 => (al >> bl, ah >> bl),
                        _ => (0, m),
                    }
                }
                Node::Zext(a) => self.iv(x, doms, a),
                Node::Sext(a) => {
                    let (l, h) = self.iv(x, doms, a);
                    if h < 1u128 << (x.w(a) - 1) {
                        (l, h)
                    } else {
                        (0, m)
                    }
                }
                Node::Extract(a, lo) => {
                    let (l, h) = self.iv(x, doms, a);
                    if h >> lo <= m {
                        (l >> lo, h >> lo)
                    } else {
                        (0, m)
                    }
                }
                Node::Concat(a, b) => {
                    let (al, ah) = self.iv(x, doms, a);
                    let (bl, bh) = self.iv(x, doms, b);
                    let s = x.w(b);
                    ((al << s) | bl, (ah << s) | bh)
                }
                Node::Ite(_, a, b) => {
                    let (al, ah) = self.iv(x, doms, a);
                    let (bl, bh) = self.iv(x, doms, b);
                    (al.min(bl), ah.max(bh))
                }
                _ => (0, m),
            }
        };
        if self.icache.len() > 2_000_000 {
            self.icache.clear();
        }
        self.icache.insert((e, h), r);
        r
    }
}
