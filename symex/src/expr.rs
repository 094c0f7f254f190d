//! Hash-consed bit-vector expressions (width 1..=128) with construction-time simplification.
use crate::ir::{mask, sext};
use std::collections::HashMap;

pub type E = u32;
pub const NONE: E = 0; // reserved: "no expression"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    None,
    Const(u128),
    Var(u32),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    SDiv(E, E),
    URem(E, E),
    SRem(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Not(E),
    Extract(E, u32),
    Concat(E, E),
    SExt(E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    /// floating point arithmetic on the bit patterns: op, a, b
    Fp(FpOp, E, E),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FpOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    /// conversions; the result width is the node width
    FromU,
    FromS,
    ToU, // saturating
    ToS, // saturating
    Cvt,
    /// rounding to an integral value
    Trunc,
    Floor,
    Ceil,
    Rint,
    Round,
}

pub struct Info {
    pub n: N,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub vars: [u64; 4],
    pub size: u32,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

pub struct Ctx {
    pub x: Vec<Info>,
    map: HashMap<(N, u32), E>,
    pub vars: Vec<VarInfo>,
    var_map: HashMap<String, u32>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

fn maxv(w: u32) -> u128 {
    mask(u128::MAX, w)
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { x: vec![], map: HashMap::new(), vars: vec![], var_map: HashMap::new(), memo: vec![], epoch: 0 };
        c.x.push(Info { n: N::None, w: 0, lo: 0, hi: 0, vars: [0; 4], size: 0 });
        c
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.x[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> N {
        self.x[e as usize].n
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        match self.x[e as usize].n {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn lo(&self, e: E) -> u128 {
        self.x[e as usize].lo
    }
    pub fn hi(&self, e: E) -> u128 {
        self.x[e as usize].hi
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        self.mk(N::Const(mask(v, w)), w)
    }
    pub fn tru(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn is_true(&self, e: E) -> bool {
        self.cv(e) == Some(1) && self.w(e) == 1
    }
    pub fn is_false(&self, e: E) -> bool {
        self.cv(e) == Some(0) && self.w(e) == 1
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        // one name can stand for inputs of different widths on different paths
        let key = format!("{name}/{w}");
        let id = match self.var_map.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(VarInfo { name: name.to_string(), w });
                self.var_map.insert(key, i);
                i
            }
        };
        self.mk(N::Var(id), w)
    }

    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let mut vars = [0u64; 4];
        let mut size = 1u32;
        let mut add = |s: &Self, e: E| {
            let i = &s.x[e as usize];
            for k in 0..4 {
                vars[k] |= i.vars[k];
            }
            size = size.saturating_add(i.size);
        };
        match n {
            N::None | N::Const(_) => {}
            N::Var(id) => vars[(id as usize % 256) / 64] |= 1 << (id % 64),
            N::Not(a) | N::Extract(a, _) | N::SExt(a) => add(self, a),
            N::Ite(a, b, c) => {
                add(self, a);
                add(self, b);
                add(self, c);
            }
            N::Add(a, b)
            | N::Sub(a, b)
            | N::Mul(a, b)
            | N::UDiv(a, b)
            | N::SDiv(a, b)
            | N::URem(a, b)
            | N::SRem(a, b)
            | N::Shl(a, b)
            | N::LShr(a, b)
            | N::AShr(a, b)
            | N::And(a, b)
            | N::Or(a, b)
            | N::Xor(a, b)
            | N::Concat(a, b)
            | N::Eq(a, b)
            | N::Ult(a, b)
            | N::Ule(a, b)
            | N::Slt(a, b)
            | N::Sle(a, b)
            | N::Fp(_, a, b) => {
                add(self, a);
                add(self, b);
            }
        }
        let (lo, hi) = self.range(n, w);
        let e = self.x.len() as E;
        self.x.push(Info { n, w, lo, hi, vars, size });
        self.map.insert((n, w), e);
        e
    }

    fn range(&self, n: N, w: u32) -> (u128, u128) {
        let full = (0, maxv(w));
        let r = |e: E| (self.x[e as usize].lo, self.x[e as usize].hi);
        match n {
            N::Const(v) => (v, v),
            N::Add(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match ah.checked_add(bh) {
                    Some(h) if h <= maxv(w) => (al + bl, h),
                    _ => {
                        // both always overflow exactly once (subtraction written as addition)
                        if w < 128 {
                            let m = maxv(w) + 1;
                            if al + bl >= m && ah + bh < 2 * m {
                                return (al + bl - m, ah + bh - m);
                            }
                        }
                        full
                    }
                }
            }
            N::Sub(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if al >= bh { (al - bh, ah - bl) } else { full }
            }
            N::Mul(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match ah.checked_mul(bh) {
                    Some(h) if h <= maxv(w) => (al * bl, h),
                    _ => full,
                }
            }
            N::UDiv(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if bl > 0 { (al / bh, ah / bl) } else { full }
            }
            N::URem(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if bl > 0 {
                    if ah < bl { (al, ah) } else { (0, (bh - 1).min(ah)) }
                } else {
                    full
                }
            }
            N::And(a, b) => (0, r(a).1.min(r(b).1)),
            N::Or(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                let m = ah | bh;
                let bits = 128 - m.leading_zeros();
                (al.max(bl), maxv(bits.max(1)).min(maxv(w)))
            }
            N::Xor(a, b) => {
                let m = r(a).1 | r(b).1;
                let bits = 128 - m.leading_zeros();
                (0, if bits == 0 { 0 } else { maxv(bits).min(maxv(w)) })
            }
            N::Extract(a, 0) => {
                let (al, ah) = r(a);
                if ah <= maxv(w) { (al, ah) } else { full }
            }
            N::Extract(a, lo) => {
                let (al, ah) = r(a);
                if ah >> lo <= maxv(w) { (al >> lo, ah >> lo) } else { full }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                let (hl, hh) = r(h);
                let (ll, lh) = r(l);
                ((hl << lw) | ll, (hh << lw) | lh)
            }
            N::SExt(a) => {
                let (al, ah) = r(a);
                let aw = self.w(a);
                if ah < 1u128 << (aw - 1) {
                    (al, ah)
                } else if al >= 1u128 << (aw - 1) {
                    (mask(sext(al, aw) as u128, w), mask(sext(ah, aw) as u128, w))
                } else {
                    full
                }
            }
            N::Ite(_, a, b) => (r(a).0.min(r(b).0), r(a).1.max(r(b).1)),
            N::LShr(a, _) => (0, r(a).1),
            _ => full,
        }
    }

    // ---- constructors ----
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                if let N::Add(p, q) = self.n(a) {
                    if let Some(z) = self.cv(q) {
                        let k = self.c(y.wrapping_add(z), w);
                        return self.add(p, k);
                    }
                }
                if let N::Ite(c, p, q) = self.n(a) {
                    if self.cv(p).is_some() && self.cv(q).is_some() {
                        let p2 = self.add(p, b);
                        let q2 = self.add(q, b);
                        return self.ite(c, p2, q2);
                    }
                }
                if let N::Sub(p, q) = self.n(a) {
                    if self.cv(p).is_some() {
                        let p2 = self.add(p, b);
                        return self.sub(p2, q);
                    }
                }
            }
            _ => {
                if let N::Add(p, q) = self.n(a) {
                    if self.cv(q).is_some() {
                        let s = self.add(p, b);
                        return self.add(s, q);
                    }
                }
                if let N::Add(p, q) = self.n(b) {
                    if self.cv(q).is_some() {
                        let s = self.add(a, p);
                        return self.add(s, q);
                    }
                }
                // (x - y) + y
                if let N::Sub(p, q) = self.n(a) {
                    if q == b {
                        return p;
                    }
                }
                if let N::Sub(p, q) = self.n(b) {
                    if q == a {
                        return p;
                    }
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.cv(b) {
            let k = self.c(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        // (p + k) - b  ->  (p - b) + k
        if let N::Add(p, k) = self.n(a) {
            if self.cv(k).is_some() {
                let s = self.sub(p, b);
                return self.add(s, k);
            }
            if p == b {
                return k;
            }
            if k == b {
                return p;
            }
        }
        if let N::Add(p, k) = self.n(b) {
            if let Some(kv) = self.cv(k) {
                let s = self.sub(a, p);
                let k2 = self.c(kv.wrapping_neg(), w);
                return self.add(s, k2);
            }
        }
        self.mk(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(k)) if k.is_power_of_two() => {
                let s = self.c(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            (None, Some(k)) => {
                if let N::Ite(c, p, q) = self.n(a) {
                    if self.cv(p).is_some() && self.cv(q).is_some() {
                        let p2 = self.mul(p, b);
                        let q2 = self.mul(q, b);
                        return self.ite(c, p2, q2);
                    }
                }
                // (x + c) * k with no overflow issue: modular, always valid
                if let N::Add(p, q) = self.n(a) {
                    if let Some(qv) = self.cv(q) {
                        let s = self.mul(p, b);
                        let kk = self.c(qv.wrapping_mul(k), w);
                        return self.add(s, kk);
                    }
                }
            }
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(h) = self.hi(a).checked_mul(self.hi(b)) {
            let bits = (128 - h.leading_zeros()).max(1);
            if let Some(nw) = [8, 16, 32, 64].into_iter().find(|k| *k >= bits) {
                if nw < w {
                    let p = self.extract(a, 0, nw);
                    let q = self.extract(b, 0, nw);
                    let r = self.mul(p, q);
                    return self.zext(r, w);
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return self.c(u128::MAX, w);
            }
            if let Some(x) = self.cv(a) {
                return self.c(x / y, w);
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            if self.hi(a) < y {
                return self.c(0, w);
            }
        }
        // division by zero is undefined behaviour in the IR, never reached by compiled Rust
        if let Some(r) = self.div_small(a, b, false) {
            return r;
        }
        if let Some(r) = self.narrow2(a, b, |s, p, q| s.udiv(p, q)) {
            return r;
        }
        self.mk(N::UDiv(a, b), w)
    }
    /// small constant divided by a symbolic value: quotient (remainder) as a chain of comparisons
    fn div_small(&mut self, a: E, b: E, rem: bool) -> Option<E> {
        let w = self.w(a);
        if w < 16 || self.cv(b).is_some() {
            return None;
        }
        if let N::Ite(c, p, q) = self.n(a) {
            if self.hi(a) > 32 {
                return None;
            }
            let p = self.div_small(p, b, rem)?;
            let q = self.div_small(q, b, rem)?;
            return Some(self.ite(c, p, q));
        }
        let (lo, hi) = (self.x[a as usize].lo, self.hi(a));
        if hi > 32 {
            return None;
        }
        let Some(x) = self.cv(a) else {
            if hi - lo > 12 {
                return None;
            }
            let k = self.c(hi, w);
            let mut r = self.div_small(k, b, rem)?;
            for v in (lo..hi).rev() {
                let k = self.c(v, w);
                let d = self.div_small(k, b, rem)?;
                let c = self.eq(a, k);
                r = self.ite(c, d, r);
            }
            return Some(r);
        };
        let mut r = self.c(if rem { x } else { 0 }, w);
        // b > x: 0; otherwise the largest q with b*q <= x
        for q in 1..=x {
            let lim = self.c(x / q, w);
            let c = self.ule(b, lim);
            let v = if rem {
                let qc = self.c(q, w);
                let m = self.mul(b, qc);
                let xc = self.c(x, w);
                self.sub(xc, m)
            } else {
                self.c(q, w)
            };
            r = self.ite(c, v, r);
        }
        Some(r)
    }
    /// compute a zero-extended operation in a narrower width when the operands allow it
    fn narrow2(&mut self, a: E, b: E, f: impl Fn(&mut Self, E, E) -> E) -> Option<E> {
        let w = self.w(a);
        let m = self.hi(a) | self.hi(b);
        let bits = (128 - m.leading_zeros()).max(1);
        let nw = [8, 16, 32, 64].into_iter().find(|k| *k >= bits)?;
        if nw >= w {
            return None;
        }
        let a2 = self.extract(a, 0, nw);
        let b2 = self.extract(b, 0, nw);
        let r = f(self, a2, b2);
        Some(self.zext(r, w))
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if let Some(x) = self.cv(a) {
                return self.c(x % y, w);
            }
            if y == 1 {
                return self.c(0, w);
            }
            if y.is_power_of_two() {
                let k = self.c(y - 1, w);
                return self.and(a, k);
            }
            if self.hi(a) < y {
                return a;
            }
        }
        if let Some(r) = self.div_small(a, b, true) {
            return r;
        }
        if let Some(r) = self.narrow2(a, b, |s, p, q| s.urem(p, q)) {
            return r;
        }
        self.mk(N::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext(x, w), sext(y, w));
            if y != 0 {
                return self.c(x.wrapping_div(y) as u128, w);
            }
        }
        let sb = 1u128 << (w - 1);
        if self.hi(a) < sb && self.hi(b) < sb && self.lo(b) > 0 {
            return self.udiv(a, b);
        }
        self.mk(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext(x, w), sext(y, w));
            if y != 0 {
                return self.c(x.wrapping_rem(y) as u128, w);
            }
        }
        let sb = 1u128 << (w - 1);
        if self.hi(a) < sb && self.hi(b) < sb && self.lo(b) > 0 {
            return self.urem(a, b);
        }
        self.mk(N::SRem(a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.c(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(sext(v, aw) as u128, w);
        }
        if self.hi(a) < 1u128 << (aw - 1) {
            return self.zext(a, w);
        }
        if aw == 1 {
            let o = self.c(u128::MAX, w);
            let z = self.c(0, w);
            return self.ite(a, o, z);
        }
        if let N::SExt(b) = self.n(a) {
            return self.sext(b, w);
        }
        self.mk(N::SExt(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {lo}+{w} of {aw}");
        if lo == 0 && w == aw {
            return a;
        }
        match self.n(a) {
            N::Const(v) => return self.c(v >> lo, w),
            N::Extract(b, l2) => return self.extract(b, lo + l2, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                let hp = self.extract(h, 0, lo + w - lw);
                let lp = self.extract(l, lo, lw - lo);
                return self.concat(hp, lp);
            }
            N::Ite(c, p, q) => {
                if self.cv(p).is_some() || self.cv(q).is_some() {
                    let p2 = self.extract(p, lo, w);
                    let q2 = self.extract(q, lo, w);
                    return self.ite(c, p2, q2);
                }
            }
            N::SExt(b) => {
                let bw = self.w(b);
                if lo + w <= bw {
                    return self.extract(b, lo, w);
                }
                if lo == 0 && w > bw {
                    return self.sext(b, w);
                }
                if lo >= bw - 1 {
                    let s = self.extract(b, bw - 1, 1);
                    return self.sext(s, w);
                }
            }
            N::Add(p, q) if lo == 0 => {
                let p2 = self.extract(p, 0, w);
                let q2 = self.extract(q, 0, w);
                return self.add(p2, q2);
            }
            N::Sub(p, q) if lo == 0 => {
                let p2 = self.extract(p, 0, w);
                let q2 = self.extract(q, 0, w);
                return self.sub(p2, q2);
            }
            N::Mul(p, q) if lo == 0 && w >= 8 => {
                let p2 = self.extract(p, 0, w);
                let q2 = self.extract(q, 0, w);
                return self.mul(p2, q2);
            }
            N::And(p, q) => {
                let p2 = self.extract(p, lo, w);
                let q2 = self.extract(q, lo, w);
                return self.and(p2, q2);
            }
            N::Or(p, q) => {
                let p2 = self.extract(p, lo, w);
                let q2 = self.extract(q, lo, w);
                return self.or(p2, q2);
            }
            N::Xor(p, q) => {
                let p2 = self.extract(p, lo, w);
                let q2 = self.extract(q, lo, w);
                return self.xor(p2, q2);
            }
            N::Not(p) => {
                let p2 = self.extract(p, lo, w);
                return self.not(p2);
            }
            _ => {}
        }
        if lo < 128 && self.hi(a) >> lo == 0 {
            return self.c(0, w);
        }
        // drop known-zero high part
        let bits = 128 - self.hi(a).leading_zeros();
        if bits > lo && lo + w > bits {
            let inner = self.extract(a, lo, bits - lo);
            return self.zext(inner, w);
        }
        self.mk(N::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            return self.c((a << lw) | b, w);
        }
        // concat(h, concat(l1, l2)) with h,l1 adjacent -> merge
        if let N::Concat(l1, l2) = self.n(l) {
            if let Some(m) = self.merge(h, l1) {
                return self.concat(m, l2);
            }
            // right-nested canonical form is concat(h, concat(l1,l2))
        }
        if let N::Concat(h1, h2) = self.n(h) {
            // canonicalise to right nesting
            let r = self.concat(h2, l);
            return self.concat(h1, r);
        }
        if let Some(m) = self.merge(h, l) {
            return m;
        }
        self.mk(N::Concat(h, l), w)
    }
    fn merge(&mut self, h: E, l: E) -> Option<E> {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            return Some(self.c((a << lw) | b, hw + lw));
        }
        let (hb, hlo) = match self.n(h) {
            N::Extract(b, lo) => (b, lo),
            _ => (h, 0),
        };
        let (lb, llo) = match self.n(l) {
            N::Extract(b, lo) => (b, lo),
            _ => (l, 0),
        };
        if hb == lb && hlo == llo + lw && (hb != h || hlo != 0 || lb != l) {
            return Some(self.extract(hb, llo, hw + lw));
        }
        // the low part of a sum was narrowed on its own
        if hb != h && hlo == lw && matches!(self.n(hb), N::Add(..) | N::Sub(..) | N::Mul(..)) && self.extract(hb, 0, lw) == l {
            return Some(self.extract(hb, 0, hw + lw));
        }
        if let (N::Ite(c, p, q), N::Ite(c2, p2, q2)) = (self.n(h), self.n(l)) {
            if c == c2 {
                let a = self.concat(p, p2);
                let b = self.concat(q, q2);
                return Some(self.ite(c, a, b));
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.n(a) {
            N::Const(v) => self.c(!v, w),
            N::Not(b) => b,
            N::Ule(p, q) => self.mk(N::Ult(q, p), 1),
            N::Ult(p, q) if self.cv(p).is_none() && self.cv(q).is_none() => self.mk(N::Ule(q, p), 1),
            N::Slt(p, q) => self.mk(N::Sle(q, p), 1),
            N::Sle(p, q) => self.mk(N::Slt(q, p), 1),
            N::Ite(c, p, q) if self.cv(p).is_some() && self.cv(q).is_some() => {
                let p2 = self.not(p);
                let q2 = self.not(q);
                self.ite(c, p2, q2)
            }
            _ => self.mk(N::Not(a), w),
        }
    }
    /// split both operands at the segment boundaries of their concatenations/constants
    fn bitwise(&mut self, op: u8, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        let mut cuts: Vec<u32> = vec![];
        for x in [a, b] {
            self.cuts(x, 0, &mut cuts);
        }
        cuts.sort_unstable();
        cuts.dedup();
        if cuts.len() <= 1 {
            return None;
        }
        // every segment must be free of a remaining binary operation
        let mut segs: Vec<E> = vec![];
        let mut start = 0;
        cuts.retain(|c| *c > 0 && *c < w);
        cuts.push(w);
        if cuts.len() > 12 {
            return None;
        }
        for c in cuts {
            let pa = self.extract(a, start, c - start);
            let pb = self.extract(b, start, c - start);
            start = c;
            let ca = self.cv(pa);
            let cb = self.cv(pb);
            let ww = self.w(pa);
            let ones = maxv(ww);
            let r = match op {
                0 => match (ca, cb) {
                    (Some(x), Some(y)) => self.c(x & y, ww),
                    (Some(0), _) => pa,
                    (_, Some(0)) => pb,
                    (Some(x), _) if x == ones => pb,
                    (_, Some(x)) if x == ones => pa,
                    _ if pa == pb => pa,
                    _ => return None,
                },
                1 => match (ca, cb) {
                    (Some(x), Some(y)) => self.c(x | y, ww),
                    (Some(0), _) => pb,
                    (_, Some(0)) => pa,
                    (Some(x), _) if x == ones => pa,
                    (_, Some(x)) if x == ones => pb,
                    _ if pa == pb => pa,
                    _ => return None,
                },
                _ => match (ca, cb) {
                    (Some(x), Some(y)) => self.c(x ^ y, ww),
                    (Some(0), _) => pb,
                    (_, Some(0)) => pa,
                    _ if pa == pb => self.c(0, ww),
                    _ => return None,
                },
            };
            segs.push(r);
        }
        let mut r = segs[0];
        for s in &segs[1..] {
            r = self.concat(*s, r);
        }
        Some(r)
    }
    fn cuts(&self, a: E, base: u32, out: &mut Vec<u32>) {
        match self.n(a) {
            N::Concat(h, l) => {
                let lw = self.w(l);
                self.cuts(l, base, out);
                out.push(base + lw);
                self.cuts(h, base + lw, out);
            }
            N::Const(v) => {
                let w = self.w(a);
                let mut prev = v & 1;
                for i in 1..w {
                    let b = (v >> i) & 1;
                    if b != prev {
                        out.push(base + i);
                        prev = b;
                    }
                }
                out.push(base + w);
                out.push(base);
            }
            _ => {}
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == maxv(w) => return a,
            _ => {}
        }
        if let N::Not(x) = self.n(a) {
            if x == b {
                return self.c(0, w);
            }
        }
        if let N::Not(x) = self.n(b) {
            if x == a {
                return self.c(0, w);
            }
        }
        if w == 1 {
            if let N::And(p, q) = self.n(a) {
                if p == b || q == b {
                    return a;
                }
            }
            if let N::And(p, q) = self.n(b) {
                if p == a || q == a {
                    return b;
                }
            }
            if let (N::Eq(p, k1), N::Eq(q, k2)) = (self.n(a), self.n(b)) {
                if p == q && self.cv(k1).is_some() && self.cv(k2).is_some() && k1 != k2 {
                    return self.fls();
                }
            }
        }
        if let Some(r) = self.bitwise(0, a, b) {
            return r;
        }
        if let (Some(_), N::Ite(c, p, q)) = (self.cv(b), self.n(a)) {
            if self.cv(p).is_some() && self.cv(q).is_some() {
                let p2 = self.and(p, b);
                let q2 = self.and(q, b);
                return self.ite(c, p2, q2);
            }
        }
        if let (Some(y), N::And(p, q)) = (self.cv(b), self.n(a)) {
            if let Some(z) = self.cv(q) {
                let k = self.c(y & z, w);
                return self.and(p, k);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == maxv(w) => return b,
            _ => {}
        }
        if let N::Not(x) = self.n(a) {
            if x == b {
                return self.c(u128::MAX, w);
            }
        }
        if let N::Not(x) = self.n(b) {
            if x == a {
                return self.c(u128::MAX, w);
            }
        }
        if w == 1 {
            if let N::Or(p, q) = self.n(a) {
                if p == b || q == b {
                    return a;
                }
            }
            if let N::Or(p, q) = self.n(b) {
                if p == a || q == a {
                    return b;
                }
            }
        }
        if let Some(r) = self.bitwise(1, a, b) {
            return r;
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == maxv(w) => return self.not(a),
            _ => {}
        }
        if let Some(r) = self.bitwise(2, a, b) {
            return r;
        }
        if let (Some(y), N::Xor(p, q)) = (self.cv(b), self.n(a)) {
            if let Some(z) = self.cv(q) {
                let k = self.c(y ^ z, w);
                return self.xor(p, k);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            let z = self.c(0, s);
            let x = self.extract(a, 0, w - s);
            return self.concat(x, z);
        }
        self.shift_sym(a, b, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            let x = self.extract(a, s, w - s);
            return self.zext(x, w);
        }
        self.shift_sym(a, b, 1)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            let s = (s as u32).min(w - 1);
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.shift_sym(a, b, 2)
    }
    fn shift_sym(&mut self, a: E, b: E, k: u8) -> E {
        let w = self.w(a);
        // small set of shift amounts: expand
        if let N::Ite(c, p, q) = self.n(b) {
            if self.cv(p).is_some() && self.cv(q).is_some() {
                let f = |s: &mut Self, x: E| match k {
                    0 => s.shl(a, x),
                    1 => s.lshr(a, x),
                    _ => s.ashr(a, x),
                };
                let p2 = f(self, p);
                let q2 = f(self, q);
                return self.ite(c, p2, q2);
            }
        }
        let n = match k {
            0 => N::Shl(a, b),
            1 => N::LShr(a, b),
            _ => N::AShr(a, b),
        };
        self.mk(n, w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(_), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (_, Some(_)) => return self.and(c, a),
                _ => {}
            }
        }
        if let N::Not(c2) = self.n(c) {
            return self.ite(c2, b, a);
        }
        if let N::Ite(c2, p, q) = self.n(a) {
            if c2 == c {
                return self.ite(c, p, b);
            }
            if q == b {
                let cc = self.and(c, c2);
                return self.ite(cc, p, b);
            }
        }
        if let N::Ite(c2, p, q) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, q);
            }
            if p == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, q);
            }
        }
        // common high zero part
        if w > 8 {
            if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                if h1 == h2 && self.w(l1) == self.w(l2) {
                    let l = self.ite(c, l1, l2);
                    return self.concat(h1, l);
                }
                if l1 == l2 && self.w(h1) == self.w(h2) {
                    let h = self.ite(c, h1, h2);
                    return self.concat(h, l1);
                }
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "eq width");
        if self.cv(a).is_some() && self.cv(b).is_none() {
            return self.eq(b, a);
        }
        if self.cv(a).is_some() && self.cv(b).is_some() {
            return self.fls();
        }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return self.fls();
        }
        if w == 1 {
            if let Some(k) = self.cv(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let Some(k) = self.cv(b) {
            match self.n(a) {
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.c(k >> lw, hw);
                    let kl = self.c(k, lw);
                    let x = self.eq(h, kh);
                    if self.is_false(x) {
                        return x;
                    }
                    let y = self.eq(l, kl);
                    return self.and(x, y);
                }
                N::Add(p, q) => {
                    if let Some(z) = self.cv(q) {
                        let k2 = self.c(k.wrapping_sub(z), w);
                        return self.eq(p, k2);
                    }
                }
                N::Xor(p, q) => {
                    if let Some(z) = self.cv(q) {
                        let k2 = self.c(k ^ z, w);
                        return self.eq(p, k2);
                    }
                    if k == 0 {
                        return self.eq(p, q);
                    }
                }
                N::Sub(p, q) if k == 0 => return self.eq(p, q),
                N::Not(p) => {
                    let k2 = self.c(!k, w);
                    return self.eq(p, k2);
                }
                N::SExt(p) => {
                    let pw = self.w(p);
                    let kt = mask(k, pw);
                    if mask(sext(kt, pw) as u128, w) != k {
                        return self.fls();
                    }
                    let k2 = self.c(kt, pw);
                    return self.eq(p, k2);
                }
                N::Ite(c, p, q) => {
                    if self.cv(p).is_some() || self.cv(q).is_some() || self.x[a as usize].size < 64 {
                        let x = self.eq(p, b);
                        let y = self.eq(q, b);
                        return self.ite(c, x, y);
                    }
                }
                N::Or(p, q) if k == 0 => {
                    let x = self.eq(p, b);
                    let y = self.eq(q, b);
                    return self.and(x, y);
                }
                _ => {}
            }
        } else {
            if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                if self.w(l1) == self.w(l2) {
                    let x = self.eq(h1, h2);
                    let y = self.eq(l1, l2);
                    return self.and(x, y);
                }
            }
            if let (N::Add(p, q), N::Add(r, s)) = (self.n(a), self.n(b)) {
                if q == s {
                    return self.eq(p, r);
                }
            }
            if let (N::Ite(c, p, q), N::Ite(c2, p2, q2)) = (self.n(a), self.n(b)) {
                if c == c2 {
                    let x = self.eq(p, p2);
                    let y = self.eq(q, q2);
                    return self.ite(c, x, y);
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        if self.hi(a) < self.lo(b) {
            return self.tru();
        }
        if self.lo(a) >= self.hi(b) {
            return self.fls();
        }
        if let Some(k) = self.cv(a) {
            // k < b  <=>  !(b < k+1)
            if k == maxv(w) {
                return self.fls();
            }
            let k1 = self.c(k + 1, w);
            let x = self.ult(b, k1);
            return self.not(x);
        }
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return self.fls();
            }
            if k == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if k == maxv(w) {
                return self.ne(a, b);
            }
            match self.n(a) {
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let kh = k >> lw;
                    let kl = mask(k, lw);
                    let hw = self.w(h);
                    if self.cv(h) == Some(kh) {
                        let k2 = self.c(kl, lw);
                        return self.ult(l, k2);
                    }
                    if kl == 0 {
                        let k2 = self.c(kh, hw);
                        return self.ult(h, k2);
                    }
                }
                N::Ite(c, p, q) => {
                    if self.cv(p).is_some() || self.cv(q).is_some() || self.x[a as usize].size < 64 {
                        let x = self.ult(p, b);
                        let y = self.ult(q, b);
                        return self.ite(c, x, y);
                    }
                }
                _ => {}
            }
        } else if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
            if h1 == h2 && self.w(l1) == self.w(l2) {
                return self.ult(l1, l2);
            }
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if self.cv(a).is_some() || self.cv(b).is_some() {
            let x = self.ult(b, a);
            return self.not(x);
        }
        if a == b {
            return self.tru();
        }
        if self.hi(a) <= self.lo(b) {
            return self.tru();
        }
        if self.lo(a) > self.hi(b) {
            return self.fls();
        }
        if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
            if h1 == h2 && self.w(l1) == self.w(l2) {
                return self.ule(l1, l2);
            }
        }
        self.mk(N::Ule(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let sb = 1u128 << (w - 1);
        let an = self.hi(a) < sb;
        let bn = self.hi(b) < sb;
        let am = self.lo(a) >= sb;
        let bm = self.lo(b) >= sb;
        if (an && bn) || (am && bm) {
            return self.ult(a, b);
        }
        if an && bm {
            return self.fls();
        }
        if am && bn {
            return self.tru();
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(maxv(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if let (N::SExt(p), N::SExt(q)) = (self.n(a), self.n(b)) {
            if self.w(p) == self.w(q) {
                return self.slt(p, q);
            }
        }
        if let (N::Ite(c, p, q), Some(_)) = (self.n(a), self.cv(b)) {
            if self.cv(p).is_some() || self.cv(q).is_some() {
                let x = self.slt(p, b);
                let y = self.slt(q, b);
                return self.ite(c, x, y);
            }
        }
        if let (N::Ite(c, p, q), Some(_)) = (self.n(b), self.cv(a)) {
            if self.cv(p).is_some() || self.cv(q).is_some() {
                let x = self.slt(a, p);
                let y = self.slt(a, q);
                return self.ite(c, x, y);
            }
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn fp(&mut self, op: FpOp, a: E, b: E, w: u32) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = fp_eval(op, x, y, self.w(a), w);
            return self.c(r, w);
        }
        self.mk(N::Fp(op, a, b), w)
    }

    // ---- evaluation ----
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
        if self.memo.len() < self.x.len() {
            self.memo.resize(self.x.len() + 1024, (0, 0));
        }
    }
    /// evaluate under an assignment (missing variables are 0)
    pub fn eval(&mut self, e: E, m: &[u128]) -> u128 {
        self.new_epoch();
        self.ev(e, m)
    }
    /// evaluate several in the same epoch (call new_epoch first)
    pub fn ev(&mut self, e: E, m: &[u128]) -> u128 {
        if let N::Const(v) = self.x[e as usize].n {
            return v;
        }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let w = self.w(e);
        let r = match self.n(e) {
            N::None => panic!("eval of none"),
            N::Const(v) => v,
            N::Var(i) => m.get(i as usize).copied().unwrap_or(0),
            N::Add(a, b) => self.ev(a, m).wrapping_add(self.ev(b, m)),
            N::Sub(a, b) => self.ev(a, m).wrapping_sub(self.ev(b, m)),
            N::Mul(a, b) => self.ev(a, m).wrapping_mul(self.ev(b, m)),
            N::UDiv(a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                if y == 0 { u128::MAX } else { x / y }
            }
            N::URem(a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                if y == 0 { x } else { x % y }
            }
            N::SDiv(a, b) => {
                let (x, y) = (sext(self.ev(a, m), w), sext(self.ev(b, m), w));
                if y == 0 {
                    if x < 0 { 1 } else { u128::MAX }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            N::SRem(a, b) => {
                let (x, y) = (sext(self.ev(a, m), w), sext(self.ev(b, m), w));
                if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 }
            }
            N::Shl(a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                if y >= w as u128 { 0 } else { x << y }
            }
            N::LShr(a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                if y >= w as u128 { 0 } else { x >> y }
            }
            N::AShr(a, b) => {
                let (x, y) = (sext(self.ev(a, m), w), self.ev(b, m));
                (x >> y.min(127).min(w as u128 - 1).max(0)) as u128
            }
            N::And(a, b) => self.ev(a, m) & self.ev(b, m),
            N::Or(a, b) => self.ev(a, m) | self.ev(b, m),
            N::Xor(a, b) => self.ev(a, m) ^ self.ev(b, m),
            N::Not(a) => !self.ev(a, m),
            N::Extract(a, lo) => self.ev(a, m) >> lo,
            N::Concat(h, l) => (self.ev(h, m) << self.w(l)) | self.ev(l, m),
            N::SExt(a) => sext(self.ev(a, m), self.w(a)) as u128,
            N::Ite(c, a, b) => {
                if self.ev(c, m) == 1 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            N::Eq(a, b) => (self.ev(a, m) == self.ev(b, m)) as u128,
            N::Ult(a, b) => (self.ev(a, m) < self.ev(b, m)) as u128,
            N::Ule(a, b) => (self.ev(a, m) <= self.ev(b, m)) as u128,
            N::Slt(a, b) => {
                let aw = self.w(a);
                (sext(self.ev(a, m), aw) < sext(self.ev(b, m), aw)) as u128
            }
            N::Sle(a, b) => {
                let aw = self.w(a);
                (sext(self.ev(a, m), aw) <= sext(self.ev(b, m), aw)) as u128
            }
            N::Fp(op, a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                fp_eval(op, x, y, self.w(a), w)
            }
        };
        let r = mask(r, w);
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    /// all distinct constant leaves of an ite tree, if it is one with at most `max` leaves
    pub fn const_leaves(&self, e: E, max: usize, out: &mut Vec<u128>) -> bool {
        match self.n(e) {
            N::Const(v) => {
                if !out.contains(&v) {
                    out.push(v);
                }
                out.len() <= max
            }
            N::Ite(_, a, b) => self.const_leaves(a, max, out) && self.const_leaves(b, max, out),
            _ => false,
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return format!("e{e}");
        }
        let d = depth - 1;
        match self.n(e) {
            N::Const(v) => format!("{v:#x}:{}", self.w(e)),
            N::Var(i) => self.vars[i as usize].name.clone(),
            N::Not(a) => format!("!{}", self.show(a, d)),
            N::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, self.w(e)),
            N::Concat(a, b) => format!("({} ++ {})", self.show(a, d), self.show(b, d)),
            N::SExt(a) => format!("sx{}({})", self.w(e), self.show(a, d)),
            N::Ite(c, a, b) => format!("({} ? {} : {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            N::Add(a, b) => format!("({} + {})", self.show(a, d), self.show(b, d)),
            N::Sub(a, b) => format!("({} - {})", self.show(a, d), self.show(b, d)),
            N::Mul(a, b) => format!("({} * {})", self.show(a, d), self.show(b, d)),
            N::And(a, b) => format!("({} & {})", self.show(a, d), self.show(b, d)),
            N::Or(a, b) => format!("({} | {})", self.show(a, d), self.show(b, d)),
            N::Xor(a, b) => format!("({} ^ {})", self.show(a, d), self.show(b, d)),
            N::Eq(a, b) => format!("({} == {})", self.show(a, d), self.show(b, d)),
            N::Ult(a, b) => format!("({} <u {})", self.show(a, d), self.show(b, d)),
            N::Ule(a, b) => format!("({} <=u {})", self.show(a, d), self.show(b, d)),
            N::Slt(a, b) => format!("({} <s {})", self.show(a, d), self.show(b, d)),
            N::Sle(a, b) => format!("({} <=s {})", self.show(a, d), self.show(b, d)),
            n => format!("{n:?}"),
        }
    }
}

pub fn fp_eval(op: FpOp, a: u128, b: u128, aw: u32, w: u32) -> u128 {
    macro_rules! ar {
        ($t:ty, $u:ty) => {{
            let x = <$t>::from_bits(a as $u);
            let y = <$t>::from_bits(b as $u);
            let r = match op {
                FpOp::Add => x + y,
                FpOp::Sub => x - y,
                FpOp::Mul => x * y,
                FpOp::Div => x / y,
                _ => x % y,
            };
            r.to_bits() as u128
        }};
    }
    match op {
        FpOp::Add | FpOp::Sub | FpOp::Mul | FpOp::Div | FpOp::Rem => {
            if aw == 32 { ar!(f32, u32) } else { ar!(f64, u64) }
        }
        FpOp::FromU => {
            if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 }
        }
        FpOp::FromS => {
            let s = sext(a, aw);
            if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
        }
        FpOp::ToU | FpOp::ToS => {
            let d = if aw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            if op == FpOp::ToU {
                let m = maxv(w);
                (d as u128).min(m)
            } else {
                let hi = (maxv(w) >> 1) as i128;
                let v = (d as i128).clamp(-hi - 1, hi);
                mask(v as u128, w)
            }
        }
        FpOp::Trunc | FpOp::Floor | FpOp::Ceil | FpOp::Rint | FpOp::Round => {
            let d = if aw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            let r = match op {
                FpOp::Trunc => d.trunc(),
                FpOp::Floor => d.floor(),
                FpOp::Ceil => d.ceil(),
                FpOp::Rint => d.round_ties_even(),
                _ => d.round(),
            };
            if aw == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }
        }
        FpOp::Cvt => match (aw, w) {
            (32, 64) => (f32::from_bits(a as u32) as f64).to_bits() as u128,
            (64, 32) => (f64::from_bits(a as u64) as f32).to_bits() as u128,
            _ => a,
        },
    }
}
