//! Path-condition queries: slicing, caching, model reuse.
use crate::expr::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;

pub type Model = Rc<Vec<u128>>;

pub struct Solver {
    pub z3: Z3,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    varsof: HashMap<E, Rc<Vec<u32>>>,
    recent: Vec<Model>,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub sat: u64,
    pub unsat: u64,
}

pub struct Unknown;

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        Solver {
            z3: Z3::new(rlimit),
            cache: HashMap::new(),
            varsof: HashMap::new(),
            recent: vec![],
            cache_hits: 0,
            model_hits: 0,
            sat: 0,
            unsat: 0,
        }
    }
    pub fn vars_of(&mut self, x: &Ctx, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsof.get(&e) {
            return v.clone();
        }
        let mut out: Vec<u32> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(e) = st.pop() {
            if x.x[e as usize].vars == [0; 4] || !seen.insert(e) {
                continue;
            }
            match x.n(e) {
                N::Var(i) => out.push(i),
                N::None | N::Const(_) => {}
                N::Not(a) | N::Extract(a, _) | N::SExt(a) => st.push(a),
                N::Ite(a, b, c) => {
                    st.push(a);
                    st.push(b);
                    st.push(c);
                }
                N::Add(a, b)
                | N::Sub(a, b)
                | N::Mul(a, b)
                | N::UDiv(a, b)
                | N::SDiv(a, b)
                | N::URem(a, b)
                | N::SRem(a, b)
                | N::Shl(a, b)
                | N::LShr(a, b)
                | N::AShr(a, b)
                | N::And(a, b)
                | N::Or(a, b)
                | N::Xor(a, b)
                | N::Concat(a, b)
                | N::Eq(a, b)
                | N::Ult(a, b)
                | N::Ule(a, b)
                | N::Slt(a, b)
                | N::Sle(a, b)
                | N::Fp(_, a, b) => {
                    st.push(a);
                    st.push(b);
                }
            }
        }
        out.sort_unstable();
        let r = Rc::new(out);
        self.varsof.insert(e, r.clone());
        r
    }
    fn slice(x: &Ctx, pc: &[E], c: E) -> Vec<E> {
        let mut v = x.x[c as usize].vars;
        let mut taken = vec![false; pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, p) in pc.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let pv = &x.x[*p as usize].vars;
                if (0..4).any(|k| pv[k] & v[k] != 0) {
                    taken[i] = true;
                    ch = true;
                    out.push(*p);
                    for k in 0..4 {
                        v[k] |= pv[k];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    /// is pc ∧ c satisfiable?  `base` satisfies pc; the returned model satisfies pc ∧ c.
    pub fn feasible(&mut self, x: &mut Ctx, pc: &[E], c: E, base: &Model) -> Result<Option<Model>, Unknown> {
        if x.is_false(c) {
            return Ok(None);
        }
        if x.eval(c, base) == 1 {
            return Ok(Some(base.clone()));
        }
        let sl = Self::slice(x, pc, c);
        if let Some(r) = self.cache.get(&sl) {
            self.cache_hits += 1;
            return Ok(r.as_ref().map(|m| merge(base, m)));
        }
        let mut vars: Vec<u32> = vec![];
        for e in &sl {
            vars.extend(self.vars_of(x, *e).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        // recent models
        for i in (0..self.recent.len()).rev() {
            let m = self.recent[i].clone();
            x.new_epoch();
            if sl.iter().all(|e| x.ev(*e, &m) == 1) {
                self.model_hits += 1;
                let vals: Vec<(u32, u128)> = vars.iter().map(|v| (*v, m.get(*v as usize).copied().unwrap_or(0))).collect();
                let vals = Rc::new(vals);
                self.cache.insert(sl, Some(vals.clone()));
                return Ok(Some(merge(base, &vals)));
            }
        }
        match self.z3.check(x, &sl, &vars) {
            Res::Sat(vals) => {
                self.sat += 1;
                let vals = Rc::new(vals);
                let m = merge(base, &vals);
                x.new_epoch();
                if let Some(bad) = sl.iter().find(|e| x.ev(**e, &m) != 1) {
                    if has_fp(x, *bad) {
                        return Err(Unknown);
                    }
                    eprintln!("model does not satisfy {}", x.show(*bad, 12));
                    std::process::exit(93);
                }
                self.recent.push(m.clone());
                if self.recent.len() > 16 {
                    self.recent.remove(0);
                }
                self.cache.insert(sl, Some(vals));
                Ok(Some(m))
            }
            Res::Unsat => {
                self.unsat += 1;
                self.cache.insert(sl, None);
                Ok(None)
            }
            Res::Unknown => Err(Unknown),
        }
    }
}

fn has_fp(_x: &Ctx, _e: E) -> bool {
    false
}

fn merge(base: &Model, m: &[(u32, u128)]) -> Model {
    let mut v = (**base).clone();
    for (k, val) in m {
        if v.len() <= *k as usize {
            v.resize(*k as usize + 1, 0);
        }
        v[*k as usize] = *val;
    }
    Rc::new(v)
}
