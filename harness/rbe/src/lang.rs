//! Reference semantics: the language of an expression restricted to bags with at most K copies of
//! each of the (two or three) symbols, as a table. Branch free, so that cardinalities stay symbolic.
use ::rbe::{Cardinality, Max, Min, Rbe};

pub const SYMS: [char; 3] = ['a', 'b', 'c'];

/// expression over symbols; cardinalities are (min, max, unbounded?)
#[derive(Clone)]
pub enum X {
    Empty,
    Sym(usize, C),
    And(Vec<X>),
    Or(Vec<X>),
    Star(Box<X>),
    Plus(Box<X>),
    Rep(Box<X>, C),
}
#[derive(Clone)]
pub struct C {
    pub min: u64,
    pub max: u64,
    pub unb: bool,
}
impl C {
    /// any cardinality with min <= max
    pub fn any() -> C {
        let unb = symrt::bool(c"unb");
        let min = symrt::u64(c"min");
        let max = symrt::u64(c"max");
        symrt::assume(unb | (min <= max));
        let unb = symrt::concrete(unb as u64) == 1;
        C { min, max, unb }
    }
    pub fn card(&self) -> Cardinality {
        Cardinality::from(Min::from(self.min as usize), if self.unb { Max::Unbounded } else { Max::IntMax(self.max as usize) })
    }
    /// 1 if n is within the bounds
    pub fn has(&self, n: u64) -> bool {
        (self.min <= n) & (self.unb | (n <= self.max))
    }
    /// 1 if some count >= n is within the bounds
    fn has_ge(&self, n: u64) -> bool {
        self.unb | (n <= self.max)
    }
}

impl X {
    pub fn rbe(&self) -> Rbe<char> {
        match self {
            X::Empty => Rbe::Empty,
            X::Sym(s, c) => Rbe::Symbol { value: SYMS[*s], card: c.card() },
            X::And(v) => Rbe::And { values: v.iter().map(|x| x.rbe()).collect() },
            X::Or(v) => Rbe::Or { values: v.iter().map(|x| x.rbe()).collect() },
            X::Star(x) => Rbe::Star { value: Box::new(x.rbe()) },
            X::Plus(x) => Rbe::Plus { value: Box::new(x.rbe()) },
            X::Rep(x, c) => Rbe::Repeat { value: Box::new(x.rbe()), card: c.card() },
        }
    }
    /// element i*(K+1)+j: i copies of a and j copies of b are in the language
    pub fn lang(&self, k: u64) -> Vec<bool> {
        self.table(&Dim { w: k as usize + 1, ns: 2 })
    }
    pub fn lang3(&self, k: u64) -> Vec<bool> {
        self.table(&Dim { w: k as usize + 1, ns: 3 })
    }
    fn table(&self, d: &Dim) -> Vec<bool> {
        match self {
            X::Empty => d.unit(),
            X::Sym(s, c) => {
                let mut m = vec![false; d.len()];
                for i in 0..d.w {
                    m[i * d.unit_of(*s)] = c.has(i as u64);
                }
                m
            }
            X::And(v) => {
                let mut m = d.unit();
                for x in v {
                    m = d.conv(&m, &x.table(d));
                }
                m
            }
            X::Or(v) => {
                let mut m = vec![false; d.len()];
                for x in v {
                    m = or(&m, &x.table(d));
                }
                m
            }
            X::Star(x) => d.star(&x.table(d)),
            X::Plus(x) => {
                let l = x.table(d);
                d.conv(&l, &d.star(&l))
            }
            X::Rep(x, c) => {
                let l = x.table(d);
                let top = (d.ns * (d.w - 1) + 1) as u64;
                let mut p = d.unit();
                let mut m = vec![false; d.len()];
                for i in 0..top {
                    m = or(&m, &only(&p, c.has(i)));
                    p = d.conv(&p, &l);
                }
                // from here on the powers do not change (within the bound)
                or(&m, &only(&p, c.has_ge(top)))
            }
        }
    }
}
/// tables indexed by the number of copies (below w) of each of ns symbols
struct Dim {
    w: usize,
    ns: usize,
}
impl Dim {
    fn len(&self) -> usize {
        self.w.pow(self.ns as u32)
    }
    fn unit_of(&self, s: usize) -> usize {
        self.w.pow((self.ns - 1 - s) as u32)
    }
    fn unit(&self) -> Vec<bool> {
        let mut m = vec![false; self.len()];
        m[0] = true;
        m
    }
    /// index of the sum of two bags, if within the table
    fn sum(&self, mut i: usize, mut j: usize) -> Option<usize> {
        let mut r = 0;
        let mut u = 1;
        for _ in 0..self.ns {
            let d = i % self.w + j % self.w;
            if d >= self.w {
                return None;
            }
            r += d * u;
            u *= self.w;
            i /= self.w;
            j /= self.w;
        }
        Some(r)
    }
    fn conv(&self, a: &[bool], b: &[bool]) -> Vec<bool> {
        let mut r = vec![false; self.len()];
        for i in 0..a.len() {
            for j in 0..b.len() {
                if let Some(k) = self.sum(i, j) {
                    r[k] |= a[i] & b[j];
                }
            }
        }
        r
    }
    fn star(&self, l: &[bool]) -> Vec<bool> {
        let mut m = self.unit();
        for _ in 0..self.ns * (self.w - 1) {
            m = or(&m, &self.conv(&m, l));
        }
        m
    }
}
fn or(a: &[bool], b: &[bool]) -> Vec<bool> {
    a.iter().zip(b).map(|(a, b)| a | b).collect()
}
fn only(a: &[bool], c: bool) -> Vec<bool> {
    a.iter().map(|a| a & c).collect()
}
pub fn member(m: &[bool], n: [u64; 2], k: u64) -> bool {
    m[(n[0] * (k + 1) + n[1]) as usize]
}
pub fn member3(m: &[bool], n: [u64; 3], k: u64) -> bool {
    let w = k + 1;
    m[((n[0] * w + n[1]) * w + n[2]) as usize]
}

fn leaf(syms: &[usize]) -> X {
    let s = if syms.len() == 1 { 0 } else { symrt::pick(c"sym", syms.len() as u32) };
    X::Sym(syms[s], C::any())
}
/// expressions of the given depth over the symbols; `disjoint`: every symbol at most once
pub fn expr(depth: u32, syms: &[usize], disjoint: bool) -> X {
    if depth == 0 {
        return leaf(syms);
    }
    let n = if disjoint && syms.len() < 2 { 4 } else { 6 };
    match symrt::pick(c"op", n) {
        0 => leaf(syms),
        1 => X::Star(Box::new(expr(depth - 1, syms, disjoint))),
        2 => X::Plus(Box::new(expr(depth - 1, syms, disjoint))),
        3 => {
            let c = C::any();
            X::Rep(Box::new(expr(depth - 1, syms, disjoint)), c)
        }
        o => {
            let (x, y) = if disjoint {
                let y = syms[1];
                (expr(depth - 1, &[syms[0]], true), expr(0, &[y], true))
            } else {
                (expr(depth - 1, syms, false), expr(0, syms, false))
            };
            if o == 4 { X::And(vec![x, y]) } else { X::Or(vec![x, y]) }
        }
    }
}
