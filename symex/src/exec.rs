//! Symbolic executor for LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub ret_dst: Option<u32>,
    pub normal: Option<u32>,
    pub sp: u32,
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame {
            f: self.f.clone(),
            regs: self.regs.clone(),
            blk: self.blk,
            ip: self.ip,
            ret_dst: self.ret_dst,
            normal: self.normal,
            sp: self.sp,
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Vec<E>,
    pub bind: Rc<BTreeMap<u32, u128>>,
    pub model: Model,
    pub steps: u64,
    pub occ: Rc<BTreeMap<String, u32>>,
    pub inputs: Rc<Vec<u32>>,
    pub observed: Vec<V>,
    pub covers: Rc<Vec<String>>,
    pub may_panic: bool,
    pub no_fmt: bool,
    pub lenhash: bool,
    pub forks: u32,
    pub subst: Cache,
}

/// per-path memo table, not worth copying at forks
#[derive(Default)]
pub struct Cache(HashMap<E, E>);
impl Clone for Cache {
    fn clone(&self) -> Self {
        Cache::default()
    }
}

pub enum Stop {
    Fork(E),
    /// path finished normally
    Done,
    /// pruned by an assumption
    Pruned,
    Panic(String),
    Exit,
    Err(String),
}
type R<T> = Result<T, Stop>;

pub struct Cfg {
    pub nsyms: u32,
    pub stack_base: u32,
    pub max_depth: u32,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub kf: Vec<String>,
    pub trace: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Unset,
    Normal,
    Panic,
    /// text formatting: skipped while the harness says so
    Fmt,
    Ext(u16),
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub panics: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_concrete: u64,
    pub asserts_solver: u64,
    pub forks: u64,
}

pub struct Fail {
    pub kind: String, // "assert" | "panic" | "known"
    pub id: String,
    pub kf: String,
    pub inputs: Vec<(String, u32, u128)>,
    pub stack: Vec<String>,
}

pub struct Engine {
    pub m: Module,
    pub x: Ctx,
    pub s: Solver,
    pub cfg: Cfg,
    pub globals: Vec<Option<Rc<Obj>>>,
    pub kinds: Vec<K>,
    pub ext_names: Vec<String>,
    pub executed: Vec<bool>,
    pub stats: Stats,
    pub fails: Vec<Fail>,
    pub completed: Vec<(Vec<(String, u32, u128)>, Vec<u128>)>,
    pub cover: BTreeMap<String, u64>,
    pub obligations: BTreeMap<String, (u64, u64)>,
    pub stop_now: bool,
    pub abandon: bool,
    pub hotforks: HashMap<(u32, u32, u32), u64>,
}

macro_rules! err { ($($t:tt)*) => { return Err(Stop::Err(format!($($t)*))) } }

fn vi(v: &V) -> Option<u128> {
    match v {
        V::I(k) => Some(*k),
        _ => None,
    }
}

impl State {
    fn learn(&mut self, x: &mut Ctx, c: E) {
        if let Err(i) = self.known.binary_search(&c) {
            self.known.insert(i, c);
            match x.n(c) {
                N::And(a, b) if x.w(c) == 1 => {
                    self.learn(x, a);
                    self.learn(x, b);
                }
                N::Not(d) => {
                    if let N::Or(a, b) = x.n(d) {
                        let na = x.not(a);
                        let nb = x.not(b);
                        self.learn(x, na);
                        self.learn(x, nb);
                    }
                    if let N::Var(i) = x.n(d) {
                        Rc::make_mut(&mut self.bind).insert(i, 0);
                        self.subst.0.clear();
                    }
                }
                N::Eq(a, b) => {
                    if let (N::Var(i), Some(k)) = (x.n(a), x.cv(b)) {
                        Rc::make_mut(&mut self.bind).insert(i, k);
                        self.subst.0.clear();
                    }
                }
                N::Var(i) => {
                    Rc::make_mut(&mut self.bind).insert(i, 1);
                    self.subst.0.clear();
                }
                _ => {}
            }
        }
    }
    fn add(&mut self, x: &mut Ctx, c: E) {
        self.learn(x, c);
        self.pc.push(c);
    }
    fn knows(&self, c: E) -> bool {
        self.known.binary_search(&c).is_ok()
    }
}

impl Engine {
    pub fn new(m: Module, rlimit: u32, max_steps: u64, deadline: std::time::Instant) -> Engine {
        let n = m.syms.len() as u32;
        let stack_base = (n + 64) / 64 * 64 + 64;
        let max_depth = 2048;
        Engine {
            cfg: Cfg { nsyms: n, stack_base, max_depth, max_steps, deadline, kf: vec![], trace: false },
            globals: vec![None; n as usize + 1],
            kinds: vec![K::Unset; n as usize],
            ext_names: vec![],
            executed: vec![false; n as usize],
            m,
            x: Ctx::new(),
            s: Solver::new(rlimit),
            stats: Stats::default(),
            fails: vec![],
            completed: vec![],
            cover: BTreeMap::new(),
            obligations: BTreeMap::new(),
            stop_now: false,
            abandon: false,
            hotforks: HashMap::new(),
        }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let s = self.m.resolve(entry).unwrap_or_else(|| {
            eprintln!("no entry {entry}");
            std::process::exit(94)
        });
        let f = self.m.func(s);
        self.executed[s as usize] = true;
        let top = Frame { regs: vec![V::I(0); f.nregs as usize], f, blk: 0, ip: 0, ret_dst: None, normal: None, sp: 0 };
        State {
            frames: vec![],
            top,
            mem: Mem::new(self.cfg.stack_base + self.cfg.max_depth + 64),
            pc: vec![],
            known: vec![],
            bind: Default::default(),
            model: Rc::new(vec![]),
            steps: 0,
            occ: Default::default(),
            inputs: Default::default(),
            observed: vec![],
            covers: Default::default(),
            may_panic: false,
            no_fmt: false,
            lenhash: true,
            forks: 0,
            subst: Cache::default(),
        }
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.m.syms[st.top.f.sym as usize].name.clone()];
        for f in st.frames.iter().rev() {
            v.push(self.m.syms[f.f.sym as usize].name.clone());
        }
        v
    }
    pub fn inputs_of(&self, st: &State, m: &Model) -> Vec<(String, u32, u128)> {
        st.inputs
            .iter()
            .map(|v| {
                let i = &self.x.vars[*v as usize];
                (i.name.clone(), i.w, m.get(*v as usize).copied().unwrap_or(0))
            })
            .collect()
    }

    // ---- value helpers ----
    #[inline]
    pub fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(k) => self.x.c(*k, w),
            V::S(e) => *e,
            V::A(_) => {
                eprintln!("aggregate used as scalar");
                std::process::exit(95)
            }
        }
    }
    #[inline]
    pub fn v(&self, e: E) -> V {
        match self.x.n(e) {
            N::Const(k) => V::I(k),
            _ => V::S(e),
        }
    }

    fn need(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.x.cv(c) {
            return Ok(v == 1);
        }
        if st.knows(c) {
            return Ok(true);
        }
        let nc = self.x.not(c);
        if st.knows(nc) {
            return Ok(false);
        }
        if !st.bind.is_empty() {
            let c2 = self.substitute(st, c);
            if let Some(v) = self.x.cv(c2) {
                return Ok(v == 1);
            }
            if c2 != c {
                if st.knows(c2) {
                    return Ok(true);
                }
                let nc = self.x.not(c2);
                if st.knows(nc) {
                    return Ok(false);
                }
            }
            return Err(Stop::Fork(c2));
        }
        Err(Stop::Fork(c))
    }
    /// replace bound variables and known conditions
    fn substitute(&mut self, st: &mut State, e: E) -> E {
        if self.x.x[e as usize].vars == [0; 4] {
            return e;
        }
        if let Some(r) = st.subst.0.get(&e) {
            return *r;
        }
        let w = self.x.w(e);
        macro_rules! two {
            ($f:ident, $a:expr, $b:expr) => {{
                let p = self.substitute(st, $a);
                let q = self.substitute(st, $b);
                if p == $a && q == $b { e } else { self.x.$f(p, q) }
            }};
        }
        let r = match self.x.n(e) {
            N::None | N::Const(_) => e,
            N::Var(i) => match st.bind.get(&i) {
                Some(k) => self.x.c(*k, w),
                None => e,
            },
            N::Add(a, b) => two!(add, a, b),
            N::Sub(a, b) => two!(sub, a, b),
            N::Mul(a, b) => two!(mul, a, b),
            N::UDiv(a, b) => two!(udiv, a, b),
            N::SDiv(a, b) => two!(sdiv, a, b),
            N::URem(a, b) => two!(urem, a, b),
            N::SRem(a, b) => two!(srem, a, b),
            N::Shl(a, b) => two!(shl, a, b),
            N::LShr(a, b) => two!(lshr, a, b),
            N::AShr(a, b) => two!(ashr, a, b),
            N::And(a, b) => two!(and, a, b),
            N::Or(a, b) => two!(or, a, b),
            N::Xor(a, b) => two!(xor, a, b),
            N::Concat(a, b) => two!(concat, a, b),
            N::Eq(a, b) => two!(eq, a, b),
            N::Ult(a, b) => two!(ult, a, b),
            N::Ule(a, b) => two!(ule, a, b),
            N::Slt(a, b) => two!(slt, a, b),
            N::Sle(a, b) => two!(sle, a, b),
            N::Not(a) => {
                let p = self.substitute(st, a);
                self.x.not(p)
            }
            N::Extract(a, lo) => {
                let p = self.substitute(st, a);
                self.x.extract(p, lo, w)
            }
            N::SExt(a) => {
                let p = self.substitute(st, a);
                self.x.sext(p, w)
            }
            N::Ite(c, a, b) => {
                let k = self.substitute(st, c);
                if let Some(v) = self.x.cv(k) {
                    if v == 1 { self.substitute(st, a) } else { self.substitute(st, b) }
                } else {
                    let p = self.substitute(st, a);
                    let q = self.substitute(st, b);
                    self.x.ite(k, p, q)
                }
            }
            N::Fp(op, a, b) => {
                let p = self.substitute(st, a);
                let q = self.substitute(st, b);
                self.x.fp(op, p, q, w)
            }
        };
        st.subst.0.insert(e, r);
        r
    }
    /// resolve the outer if-then-else structure with what the path already decided
    fn strip(&mut self, st: &mut State, e: E) -> E {
        let e = if st.bind.is_empty() { e } else { self.substitute(st, e) };
        let mut memo = HashMap::new();
        self.strip1(st, e, &mut memo, 0)
    }
    fn strip1(&mut self, st: &State, e: E, memo: &mut HashMap<E, E>, d: u32) -> E {
        if d > 60 || self.x.x[e as usize].vars == [0; 4] {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = match self.x.n(e) {
            N::Ite(c, a, b) => {
                let nc = self.x.not(c);
                if st.knows(c) {
                    self.strip1(st, a, memo, d + 1)
                } else if st.knows(nc) {
                    self.strip1(st, b, memo, d + 1)
                } else {
                    let p = self.strip1(st, a, memo, d + 1);
                    let q = self.strip1(st, b, memo, d + 1);
                    self.x.ite(c, p, q)
                }
            }
            N::Add(a, b) => {
                let p = self.strip1(st, a, memo, d + 1);
                let q = self.strip1(st, b, memo, d + 1);
                self.x.add(p, q)
            }
            N::Sub(a, b) => {
                let p = self.strip1(st, a, memo, d + 1);
                let q = self.strip1(st, b, memo, d + 1);
                self.x.sub(p, q)
            }
            N::Mul(a, b) => {
                let p = self.strip1(st, a, memo, d + 1);
                let q = self.strip1(st, b, memo, d + 1);
                self.x.mul(p, q)
            }
            N::Concat(a, b) => {
                let p = self.strip1(st, a, memo, d + 1);
                let q = self.strip1(st, b, memo, d + 1);
                self.x.concat(p, q)
            }
            N::Extract(a, lo) => {
                let p = self.strip1(st, a, memo, d + 1);
                let w = self.x.w(e);
                self.x.extract(p, lo, w)
            }
            _ => e,
        };
        memo.insert(e, r);
        r
    }
    /// force a concrete value, forking over all feasible ones
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::I(k) => Ok(*k),
            V::S(e) => {
                let e = self.strip(st, *e);
                if let Some(k) = self.x.cv(e) {
                    return Ok(k);
                }
                // forking on an ite condition first keeps the number of solver calls low
                if let Some(c) = self.ite_cond(e, 0) {
                    self.need(st, c)?;
                }
                let k = self.x.eval(e, &st.model.clone());
                let kc = self.x.c(k, w);
                let c = self.x.eq(e, kc);
                if self.need(st, c)? {
                    Ok(k)
                } else {
                    // the model contradicts a known fact: impossible
                    err!("concretize: inconsistent model")
                }
            }
            V::A(_) => err!("concretize aggregate"),
        }
    }
    fn ite_cond(&self, e: E, d: u32) -> Option<E> {
        if d > 12 {
            return None;
        }
        match self.x.n(e) {
            N::Ite(c, _, _) => Some(c),
            N::Add(a, b) | N::Sub(a, b) | N::Concat(a, b) | N::Mul(a, b) => {
                self.ite_cond(a, d + 1).or_else(|| self.ite_cond(b, d + 1))
            }
            N::Extract(a, _) => self.ite_cond(a, d + 1),
            _ => None,
        }
    }

    // ---- memory ----
    fn materialize(&mut self, id: u32) -> Option<Rc<Obj>> {
        if id == 0 || id > self.cfg.nsyms {
            return None;
        }
        if let Some(o) = &self.globals[id as usize] {
            return Some(o.clone());
        }
        let s = id - 1;
        if !matches!(self.m.syms[s as usize].kind, SymKind::Global { .. }) {
            return None;
        }
        let (data, ro) = self.m.global_init(s);
        let o = Rc::new(Obj { data, sym: None, ro });
        self.globals[id as usize] = Some(o.clone());
        Some(o)
    }
    #[inline]
    fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> Option<&'a Obj> {
        if id <= self.cfg.nsyms {
            if let Some(o) = st.mem.get(id) {
                return Some(o);
            }
            if self.globals.get(id as usize)?.is_none() {
                self.materialize(id);
            }
            return self.globals[id as usize].as_deref();
        }
        st.mem.get(id).map(|o| &**o)
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id <= self.cfg.nsyms && st.mem.get(id).is_none() {
            let o = self.materialize(id)?;
            *st.mem.slot(id) = Some(o);
        }
        st.mem.get_mut(id)
    }
    fn bad_addr(&self, what: &str, a: u64, n: usize, st: &State) -> Stop {
        let s = self.stack(st);
        Stop::Err(format!("{what} of {n} bytes at invalid address {a:#x} in {}", s.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")))
    }
    #[inline]
    fn load_scalar(&mut self, st: &State, w: u32, a: u64) -> R<V> {
        let n = w.div_ceil(8) as usize;
        if w > 128 {
            err!("load of i{w}");
        }
        let id = (a >> OBJ_SHIFT) as u32;
        let off = (a & 0xffff_ffff) as usize;
        let Some(o) = self.obj(st, id) else { return Err(self.bad_addr("load", a, n, st)) };
        if off + n > o.data.len() {
            let l = o.data.len();
            let Stop::Err(s) = self.bad_addr("load", a, n, st) else { unreachable!() };
            err!("{s} (object size {l})");
        }
        if let Some(sy) = &o.sym {
            let sl = &sy[off..off + n];
            if sl.iter().any(|e| *e != NONE) {
                let bytes: Vec<(E, u8)> = (0..n).map(|k| (sl[k], o.data[off + k])).collect();
                let mut r = NONE;
                for (s, d) in bytes {
                    let b = if s != NONE { s } else { self.x.c(d as u128, 8) };
                    r = if r == NONE { b } else { self.x.concat(b, r) };
                }
                if w % 8 != 0 {
                    r = self.x.extract(r, 0, w);
                }
                return Ok(self.v(r));
            }
        }
        let d = &o.data[off..off + n];
        let r = match n {
            8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
            4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
            1 => d[0] as u128,
            _ => {
                let mut r = 0u128;
                for (k, b) in d.iter().enumerate() {
                    r |= (*b as u128) << (8 * k);
                }
                r
            }
        };
        Ok(V::I(if w % 8 != 0 { mask(r, w) } else { r }))
    }
    fn load(&mut self, st: &mut State, ty: Ty, p: &V) -> R<V> {
        match self.m.types.get(ty) {
            T::Int(_) | T::Ptr | T::Float | T::Double | T::Half => {
                let w = self.m.types.bits(ty);
                match p {
                    V::I(a) => self.load_scalar(st, w, *a as u64),
                    V::S(e) => self.load_sym(st, w, *e),
                    V::A(_) => err!("load from aggregate"),
                }
            }
            T::Vector(n, e) => {
                let (n, e) = (*n, *e);
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    // packed bits
                    let v = self.load_as_int(st, n * w, p)?;
                    let out = (0..n)
                        .map(|k| match &v {
                            V::I(x) => V::I(mask(x >> (k * w), w)),
                            V::S(x) => {
                                let r = self.x.extract(*x, k * w, w);
                                self.v(r)
                            }
                            _ => unreachable!(),
                        })
                        .collect();
                    return Ok(V::A(Rc::new(out)));
                }
                let mut out = Vec::with_capacity(n as usize);
                for k in 0..n {
                    let q = self.padd(p, (k * w / 8) as u64);
                    out.push(self.load(st, e, &q)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            T::Array(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.m.types.size(e);
                let mut out = vec![];
                for k in 0..n {
                    let q = self.padd(p, k * s);
                    out.push(self.load(st, e, &q)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            T::Struct(fs, _) => {
                let fs = fs.clone();
                let offs = self.m.types.offsets(ty);
                let mut out = vec![];
                for (k, f) in fs.iter().enumerate() {
                    let q = self.padd(p, offs[k]);
                    out.push(self.load(st, *f, &q)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            t => err!("load of {t:?}"),
        }
    }
    fn load_as_int(&mut self, st: &mut State, w: u32, p: &V) -> R<V> {
        match p {
            V::I(a) => self.load_scalar(st, w, *a as u64),
            V::S(e) => self.load_sym(st, w, *e),
            V::A(_) => err!("load from aggregate"),
        }
    }
    fn padd(&mut self, p: &V, k: u64) -> V {
        match p {
            V::I(a) => V::I((*a as u64).wrapping_add(k) as u128),
            V::S(e) => {
                let c = self.x.c(k as u128, 64);
                let r = self.x.add(*e, c);
                self.v(r)
            }
            V::A(_) => V::I(0),
        }
    }
    fn valid_load(&mut self, st: &State, a: u64, n: usize) -> bool {
        let id = (a >> OBJ_SHIFT) as u32;
        let off = (a & 0xffff_ffff) as usize;
        match self.obj(st, id) {
            Some(o) => off + n <= o.data.len(),
            None => false,
        }
    }
    fn stride(&self, e: E) -> (u128, u128) {
        // value ≡ r (mod s); s == 0: exactly r
        fn gcd(a: u128, b: u128) -> u128 {
            if b == 0 { a } else { gcd(b, a % b) }
        }
        match self.x.n(e) {
            N::Const(v) => (v, 0),
            N::Concat(h, l) => {
                let lw = self.x.w(l);
                if self.x.cv(h) == Some(0) {
                    return self.stride(l);
                }
                if let Some(k) = self.x.cv(l) {
                    let (r, s) = self.stride(h);
                    if lw < 100 && s < 1 << 20 && r < 1 << 60 {
                        return ((r << lw) | k, if s == 0 { 1 << lw } else { s << lw });
                    }
                    return (k, 1 << lw.min(100));
                }
                (0, 1)
            }
            N::Mul(a, b) => {
                if let Some(k) = self.x.cv(b) {
                    let w = self.x.w(e);
                    if let Some(h) = self.x.hi(a).checked_mul(k) {
                        if h <= mask(u128::MAX, w) {
                            return (0, k);
                        }
                    }
                    return (0, 1 << k.trailing_zeros());
                }
                (0, 1)
            }
            N::Add(a, b) => {
                let w = self.x.w(e);
                let ov = match self.x.hi(a).checked_add(self.x.hi(b)) {
                    Some(h) => h > mask(u128::MAX, w),
                    None => true,
                };
                let (ra, sa) = self.stride(a);
                let (rb, sb) = self.stride(b);
                let g = gcd(sa, sb);
                if ov {
                    // reduce to the power of two part
                    if g == 0 {
                        return (0, 1);
                    }
                    let p = 1u128 << g.trailing_zeros().min(30);
                    return ((ra.wrapping_add(rb)) % p, p);
                }
                if g == 0 { (ra + rb, 0) } else { ((ra % g + rb % g) % g, g) }
            }
            N::Ite(_, a, b) => {
                let (ra, sa) = self.stride(a);
                let (rb, sb) = self.stride(b);
                let d = if ra > rb { ra - rb } else { rb - ra };
                let g = gcd(gcd(sa, sb), d);
                if g == 0 { (ra, 0) } else { (ra % g, g) }
            }
            _ => (0, 1),
        }
    }
    /// candidate addresses of a symbolic pointer inside one object
    fn candidates(&mut self, st: &mut State, e: E, n: usize, what: &str) -> R<Option<(u64, Vec<u64>)>> {
        let (lo, hi) = (self.x.lo(e) as u64, self.x.hi(e) as u64);
        let mut id = (lo >> OBJ_SHIFT) as u32;
        if lo >> OBJ_SHIFT != hi >> OBJ_SHIFT {
            // pointer arithmetic with a possibly negative offset: take the object the current model points to
            // and ask whether another one is possible
            let k = self.x.eval(e, &st.model.clone()) as u64;
            id = (k >> OBJ_SHIFT) as u32;
            let Some(o) = self.obj(st, id) else { return Ok(None) };
            let size = o.data.len();
            if size < n {
                return Ok(None);
            }
            let base = (id as u64) << OBJ_SHIFT;
            let b = self.x.c(base as u128, 64);
            let off = self.x.sub(e, b);
            let lim = self.x.c((size - n) as u128, 64);
            let c = self.x.ule(off, lim);
            if !self.need(st, c)? {
                return Ok(None);
            }
            return self.cand_in(st, e, base, 0, (size - n) as u64);
        }
        let Some(o) = self.obj(st, id) else { return Ok(None) };
        let size = o.data.len() as u64;
        let base = (id as u64) << OBJ_SHIFT;
        if size < n as u64 {
            return Err(self.bad_addr(what, lo, n, st));
        }
        let lim = base + size - n as u64;
        if hi > lim {
            let l = self.x.c(lim as u128, 64);
            let c = self.x.ule(e, l);
            if !self.need(st, c)? {
                let Stop::Err(s) = self.bad_addr(what, lo, n, st) else { unreachable!() };
                err!("{s}: symbolic address out of bounds (object size {size}) {}", self.x.show(e, 6));
            }
        }
        self.cand_in(st, e, base, lo - base, hi.min(lim) - base)
    }
    fn cand_in(&mut self, _st: &mut State, e: E, base: u64, lo: u64, hi: u64) -> R<Option<(u64, Vec<u64>)>> {
        let (r, s) = self.stride(e);
        let s = if s == 0 { 1 } else { s };
        let r = r % s;
        let first = base + lo;
        let m = (first as u128) % s;
        let first = first + ((r + s - m) % s) as u64;
        if hi >= lo && (hi - lo) as u128 / s > 8192 {
            return Ok(None);
        }
        let mut v = vec![];
        let mut a = first;
        while a <= base + hi {
            v.push(a);
            a += s as u64;
        }
        Ok(Some((base, v)))
    }
    fn load_sym(&mut self, st: &mut State, w: u32, e: E) -> R<V> {
        let e = self.strip(st, e);
        if let Some(k) = self.x.cv(e) {
            return self.load_scalar(st, w, k as u64);
        }
        let n = w.div_ceil(8) as usize;
        let mut leaves = vec![];
        if self.x.const_leaves(e, 64, &mut leaves) {
            if leaves.iter().all(|a| self.valid_load(st, *a as u64, n)) {
                return self.load_ite(st, w, e);
            }
            let c = self.ite_cond(e, 0).unwrap();
            self.need(st, c)?;
            err!("known condition not stripped");
        }
        match self.candidates(st, e, n, "load")? {
            Some((_, c)) if !c.is_empty() => {
                let mut vals = Vec::with_capacity(c.len());
                for a in &c {
                    vals.push(self.load_scalar(st, w, *a)?);
                }
                let r = self.select_tree(e, &c, &vals, w);
                Ok(self.v(r))
            }
            _ => {
                if let Some(c) = self.ite_cond(e, 0) {
                    self.need(st, c)?;
                }
                let k = self.concretize(st, &V::S(e), 64)?;
                self.load_scalar(st, w, k as u64)
            }
        }
    }
    fn select_tree(&mut self, e: E, c: &[u64], vals: &[V], w: u32) -> E {
        if vals.iter().all(|v| *v == vals[0]) {
            return self.e(&vals[0], w);
        }
        let mid = c.len() / 2;
        let k = self.x.c(c[mid] as u128, 64);
        let cond = self.x.ult(e, k);
        let a = self.select_tree(e, &c[..mid], &vals[..mid], w);
        let b = self.select_tree(e, &c[mid..], &vals[mid..], w);
        self.x.ite(cond, a, b)
    }
    fn load_ite(&mut self, st: &State, w: u32, e: E) -> R<V> {
        match self.x.n(e) {
            N::Const(a) => self.load_scalar(st, w, a as u64),
            N::Ite(c, a, b) => {
                let p = self.load_ite(st, w, a)?;
                let q = self.load_ite(st, w, b)?;
                if p == q {
                    return Ok(p);
                }
                let p = self.e(&p, w);
                let q = self.e(&q, w);
                let r = self.x.ite(c, p, q);
                Ok(self.v(r))
            }
            _ => unreachable!(),
        }
    }
    fn store_scalar(&mut self, st: &mut State, w: u32, a: u64, v: &V) -> R<()> {
        if w > 128 {
            err!("store of i{w}");
        }
        let n = w.div_ceil(8) as usize;
        let id = (a >> OBJ_SHIFT) as u32;
        let off = (a & 0xffff_ffff) as usize;
        // split symbolic value first
        let mut parts: [E; 16] = [NONE; 16];
        if let V::S(e) = v {
            let e = if w % 8 != 0 { self.x.zext(*e, n as u32 * 8) } else { *e };
            for k in 0..n {
                parts[k] = if n == 1 { e } else { self.x.extract(e, k as u32 * 8, 8) };
            }
        }
        let consts: [u8; 16] = {
            let mut c = [0u8; 16];
            if let V::S(_) = v {
                for k in 0..n {
                    if let Some(x) = self.x.cv(parts[k]) {
                        c[k] = x as u8;
                        parts[k] = NONE;
                    }
                }
            }
            c
        };
        let Some(o) = self.obj_mut(st, id) else { return Err(self.bad_addr("store", a, n, st)) };
        if off + n > o.data.len() {
            return Err(self.bad_addr("store", a, n, st));
        }
        if o.ro {
            return Err(self.bad_addr("store to constant", a, n, st));
        }
        match v {
            V::I(k) => {
                let b = k.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(NONE);
                }
            }
            V::S(_) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![NONE; len]);
                s[off..off + n].copy_from_slice(&parts[..n]);
                o.data[off..off + n].copy_from_slice(&consts[..n]);
            }
            V::A(_) => err!("store aggregate as scalar"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, ty: Ty, v: &V, p: &V) -> R<()> {
        let p = match p {
            V::S(e) => {
                let e = self.strip(st, *e);
                self.v(e)
            }
            o => o.clone(),
        };
        match self.m.types.get(ty) {
            T::Int(_) | T::Ptr | T::Float | T::Double | T::Half => {
                let w = self.m.types.bits(ty);
                match &p {
                    V::I(a) => self.store_scalar(st, w, *a as u64, v),
                    V::S(e) => self.store_sym(st, w, *e, v),
                    V::A(_) => err!("store to aggregate"),
                }
            }
            T::Vector(n, e) => {
                let (n, e) = (*n, *e);
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    let r = self.pack(v, n, w)?;
                    let V::I(a) = p else { err!("packed store to symbolic address") };
                    return self.store_scalar(st, n * w, a as u64, &r);
                }
                let V::A(vs) = v else { err!("vector store of scalar") };
                let p = V::I(self.concretize(st, &p, 64)?);
                for k in 0..n {
                    let q = self.padd(&p, (k * w / 8) as u64);
                    self.store(st, e, &vs[k as usize], &q)?;
                }
                Ok(())
            }
            T::Array(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.m.types.size(e);
                let V::A(vs) = v else { err!("array store of scalar") };
                let p = V::I(self.concretize(st, &p, 64)?);
                for k in 0..n {
                    let q = self.padd(&p, k * s);
                    self.store(st, e, &vs[k as usize], &q)?;
                }
                Ok(())
            }
            T::Struct(fs, _) => {
                let fs = fs.clone();
                let offs = self.m.types.offsets(ty);
                let V::A(vs) = v else { err!("struct store of scalar") };
                let p = V::I(self.concretize(st, &p, 64)?);
                for (k, f) in fs.iter().enumerate() {
                    let q = self.padd(&p, offs[k]);
                    self.store(st, *f, &vs[k], &q)?;
                }
                Ok(())
            }
            t => err!("store of {t:?}"),
        }
    }
    fn pack(&mut self, v: &V, n: u32, w: u32) -> R<V> {
        let V::A(vs) = v else { return Ok(v.clone()) };
        if vs.iter().all(|x| matches!(x, V::I(_))) && n * w <= 128 {
            let mut r = 0u128;
            for (k, x) in vs.iter().enumerate() {
                r |= vi(x).unwrap() << (k as u32 * w);
            }
            return Ok(V::I(r));
        }
        if n * w > 128 {
            err!("pack of {n} x {w}");
        }
        let mut r = NONE;
        for x in vs.iter() {
            let b = self.e(x, w);
            r = if r == NONE { b } else { self.x.concat(b, r) };
        }
        Ok(self.v(r))
    }
    fn store_sym(&mut self, st: &mut State, w: u32, e: E, v: &V) -> R<()> {
        let n = w.div_ceil(8) as usize;
        let mut leaves = vec![];
        if self.x.const_leaves(e, 64, &mut leaves) {
            let c = self.ite_cond(e, 0).unwrap();
            self.need(st, c)?;
            err!("known condition not stripped");
        }
        match self.candidates(st, e, n, "store")? {
            Some((_, c)) if !c.is_empty() && c.len() * n <= 1024 => {
                let nv = self.e(v, w);
                for a in c {
                    let old = self.load_scalar(st, w, a)?;
                    let old = self.e(&old, w);
                    let k = self.x.c(a as u128, 64);
                    let cond = self.x.eq(e, k);
                    let r = self.x.ite(cond, nv, old);
                    let r = self.v(r);
                    self.store_scalar(st, w, a, &r)?;
                }
                Ok(())
            }
            _ => {
                let k = self.concretize(st, &V::S(e), 64)?;
                self.store_scalar(st, w, k as u64, v)
            }
        }
    }
    /// concrete byte copy
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let sid = (src >> OBJ_SHIFT) as u32;
        let so = (src & 0xffff_ffff) as usize;
        let Some(o) = self.obj(st, sid) else { return Err(self.bad_addr("copy from", src, n, st)) };
        if so + n > o.data.len() {
            return Err(self.bad_addr("copy from", src, n, st));
        }
        let data: Vec<u8> = o.data[so..so + n].to_vec();
        let sym: Option<Vec<E>> = o.sym.as_ref().and_then(|s| {
            let sl = &s[so..so + n];
            if sl.iter().any(|e| *e != NONE) { Some(sl.to_vec()) } else { None }
        });
        let did = (dst >> OBJ_SHIFT) as u32;
        let d = (dst & 0xffff_ffff) as usize;
        let Some(o) = self.obj_mut(st, did) else { return Err(self.bad_addr("copy to", dst, n, st)) };
        if d + n > o.data.len() || o.ro {
            return Err(self.bad_addr("copy to", dst, n, st));
        }
        o.data[d..d + n].copy_from_slice(&data);
        match sym {
            Some(s) => {
                let len = o.data.len();
                let t = o.sym.get_or_insert_with(|| vec![NONE; len]);
                t[d..d + n].copy_from_slice(&s);
            }
            None => {
                if let Some(t) = &mut o.sym {
                    t[d..d + n].fill(NONE);
                }
            }
        }
        Ok(())
    }
    fn cstr(&mut self, st: &mut State, p: &V) -> R<String> {
        let mut a = self.concretize(st, p, 64)? as u64;
        let mut out = vec![];
        loop {
            match self.load_scalar(st, 8, a)? {
                V::I(0) => break,
                V::I(b) => out.push(b as u8),
                _ => err!("symbolic C string"),
            }
            a += 1;
        }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }

    // ---- arithmetic ----
    pub fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if w > 128 {
            return wide_bin(op, w, a, b);
        }
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u128 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u128 { 0 } else { x >> y },
                BinOp::AShr => (sext(x, w) >> y.min(w as u128 - 1)) as u128,
                BinOp::UDiv => if y == 0 { err!("division by zero") } else { x / y },
                BinOp::URem => if y == 0 { err!("division by zero") } else { x % y },
                BinOp::SDiv => if y == 0 { err!("division by zero") } else { sext(x, w).wrapping_div(sext(y, w)) as u128 },
                BinOp::SRem => if y == 0 { err!("division by zero") } else { sext(x, w).wrapping_rem(sext(y, w)) as u128 },
                BinOp::FAdd => fp_eval(FpOp::Add, x, y, w, w),
                BinOp::FSub => fp_eval(FpOp::Sub, x, y, w, w),
                BinOp::FMul => fp_eval(FpOp::Mul, x, y, w, w),
                BinOp::FDiv => fp_eval(FpOp::Div, x, y, w, w),
                BinOp::FRem => fp_eval(FpOp::Rem, x, y, w, w),
            };
            return Ok(V::I(mask(r, w)));
        }
        let p = self.e(a, w);
        let q = self.e(b, w);
        let x = &mut self.x;
        let r = match op {
            BinOp::Add => x.add(p, q),
            BinOp::Sub => x.sub(p, q),
            BinOp::Mul => x.mul(p, q),
            BinOp::And => x.and(p, q),
            BinOp::Or => x.or(p, q),
            BinOp::Xor => x.xor(p, q),
            BinOp::Shl => x.shl(p, q),
            BinOp::LShr => x.lshr(p, q),
            BinOp::AShr => x.ashr(p, q),
            BinOp::UDiv => x.udiv(p, q),
            BinOp::URem => x.urem(p, q),
            BinOp::SDiv => x.sdiv(p, q),
            BinOp::SRem => x.srem(p, q),
            BinOp::FAdd => x.fp(FpOp::Add, p, q, w),
            BinOp::FSub => x.fp(FpOp::Sub, p, q, w),
            BinOp::FMul => x.fp(FpOp::Mul, p, q, w),
            BinOp::FDiv => x.fp(FpOp::Div, p, q, w),
            BinOp::FRem => err!("symbolic float remainder"),
        };
        Ok(self.v(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
            };
            return V::I(r as u128);
        }
        let a = self.e(a, w);
        let b = self.e(b, w);
        let x = &mut self.x;
        let r = match p {
            Pred::Eq => x.eq(a, b),
            Pred::Ne => x.ne(a, b),
            Pred::Ult => x.ult(a, b),
            Pred::Ule => x.ule(a, b),
            Pred::Ugt => x.ult(b, a),
            Pred::Uge => x.ule(b, a),
            Pred::Slt => x.slt(a, b),
            Pred::Sle => x.sle(a, b),
            Pred::Sgt => x.slt(b, a),
            Pred::Sge => x.sle(b, a),
        };
        self.v(r)
    }
    pub fn fcmp(&mut self, p: u8, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = if w == 32 {
                (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)
            } else {
                (f64::from_bits(*x as u64), f64::from_bits(*y as u64))
            };
            let r = match x.partial_cmp(&y) {
                None => p & 8 != 0,
                Some(std::cmp::Ordering::Equal) => p & 1 != 0,
                Some(std::cmp::Ordering::Greater) => p & 2 != 0,
                Some(std::cmp::Ordering::Less) => p & 4 != 0,
            };
            return V::I(r as u128);
        }
        let a = self.e(a, w);
        let b = self.e(b, w);
        let x = &mut self.x;
        let (inf, body) = if w == 32 { (0x7f80_0000u128, 31) } else { (0x7ff0_0000_0000_0000u128, 63) };
        let infc = x.c(inf, body);
        let am = x.extract(a, 0, body);
        let bm = x.extract(b, 0, body);
        let an = x.ult(infc, am);
        let bn = x.ult(infc, bm);
        let un = x.or(an, bn);
        let z = x.c(0, body);
        let az = x.eq(am, z);
        let bz = x.eq(bm, z);
        let bothz = x.and(az, bz);
        let same = x.eq(a, b);
        let eq = x.or(bothz, same);
        let key = |x: &mut Ctx, v: E| {
            let s = x.extract(v, body, 1);
            let nv = x.not(v);
            let sb = x.c(1u128 << body, w);
            let ov = x.or(v, sb);
            x.ite(s, nv, ov)
        };
        let ka = key(x, a);
        let kb = key(x, b);
        let l = x.ult(ka, kb);
        let neq = x.not(eq);
        let lt = x.and(l, neq);
        let g = x.ult(kb, ka);
        let gt = x.and(g, neq);
        let ord = x.not(un);
        let mut r = x.fls();
        for (bit, e) in [(1, eq), (2, gt), (4, lt)] {
            if p & bit != 0 {
                let t = x.and(ord, e);
                r = x.or(r, t);
            }
        }
        if p & 8 != 0 {
            r = x.or(r, un);
        }
        self.v(r)
    }
    fn ite_v(&mut self, c: E, a: &V, b: &V, ty: Ty) -> R<V> {
        if a == b {
            return Ok(a.clone());
        }
        match (a, b) {
            (V::A(p), V::A(q)) => {
                let mut out = Vec::with_capacity(p.len());
                for k in 0..p.len() {
                    let ft = self.m.types.field(ty, k as u64);
                    out.push(self.ite_v(c, &p[k], &q[k], ft)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            (V::A(_), _) | (_, V::A(_)) => err!("select shape"),
            _ => {
                let w = self.m.types.bits(ty);
                let p = self.e(a, w);
                let q = self.e(b, w);
                let r = self.x.ite(c, p, q);
                Ok(self.v(r))
            }
        }
    }
    fn lanes(&mut self, n: u32, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> R<V>) -> R<V> {
        if n == 0 {
            return f(self, a, b);
        }
        let (V::A(p), V::A(q)) = (a, b) else { err!("vector operand shape") };
        let mut out = Vec::with_capacity(p.len());
        for k in 0..p.len() {
            out.push(f(self, &p[k], &q[k])?);
        }
        Ok(V::A(Rc::new(out)))
    }
    fn cast(&mut self, k: Cast, from: Ty, to: Ty, a: &V) -> R<V> {
        let vt = matches!(self.m.types.get(from), T::Vector(..)) && matches!(self.m.types.get(to), T::Vector(..));
        if k != Cast::Bitcast && vt {
            let (T::Vector(n, f), T::Vector(_, t)) = (self.m.types.get(from).clone(), self.m.types.get(to).clone()) else {
                unreachable!()
            };
            let _ = n;
            let V::A(vs) = a else { err!("vector cast shape") };
            let mut out = vec![];
            for v in vs.iter() {
                out.push(self.cast(k, f, t, v)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let fw = self.m.types.bits(from);
        let tw = self.m.types.bits(to);
        Ok(match k {
            Cast::PtrToInt | Cast::IntToPtr | Cast::Trunc | Cast::ZExt => match a {
                V::A(v) if fw == 256 && tw <= 128 => V::I(mask(wide_parts(&v[0])?.0, tw)),
                V::I(x) => V::I(mask(*x, tw.min(fw))),
                V::S(e) => {
                    let r = if tw < fw {
                        self.x.extract(*e, 0, tw)
                    } else {
                        if tw > 128 {
                            err!("i{tw}");
                        }
                        self.x.zext(*e, tw)
                    };
                    self.v(r)
                }
                _ => err!("cast shape"),
            },
            Cast::SExt => match a {
                V::I(x) => V::I(mask(sext(*x, fw) as u128, tw)),
                V::S(e) => {
                    let r = self.x.sext(*e, tw);
                    self.v(r)
                }
                _ => err!("cast shape"),
            },
            Cast::Bitcast => return self.bitcast(from, to, a),
            Cast::FpExt | Cast::FpTrunc => self.fpconv(FpOp::Cvt, fw, tw, a)?,
            Cast::UiToFp => self.fpconv(FpOp::FromU, fw, tw, a)?,
            Cast::SiToFp => self.fpconv(FpOp::FromS, fw, tw, a)?,
            Cast::FpToUi => self.fpconv(FpOp::ToU, fw, tw, a)?,
            Cast::FpToSi => self.fpconv(FpOp::ToS, fw, tw, a)?,
        })
    }
    pub fn fpconv(&mut self, op: FpOp, fw: u32, tw: u32, a: &V) -> R<V> {
        match a {
            V::I(x) => Ok(V::I(mask(fp_eval(op, *x, 0, fw, tw), tw))),
            V::S(e) => {
                let z = self.x.c(0, fw);
                let r = self.x.fp(op, *e, z, tw);
                Ok(self.v(r))
            }
            _ => err!("cast shape"),
        }
    }
    fn bitcast(&mut self, from: Ty, to: Ty, a: &V) -> R<V> {
        let ft = self.m.types.get(from).clone();
        let tt = self.m.types.get(to).clone();
        let flat: Vec<(V, u32)> = match (&ft, a) {
            (T::Vector(_, e), V::A(vs)) => {
                let w = self.m.types.bits(*e);
                vs.iter().map(|v| (v.clone(), w)).collect()
            }
            (_, v) => vec![(v.clone(), self.m.types.bits(from))],
        };
        let (n, w) = match &tt {
            T::Vector(n, e) => (*n, self.m.types.bits(*e)),
            _ => (1, self.m.types.bits(to)),
        };
        if w > 128 {
            err!("bitcast to i{w}");
        }
        // regroup
        let mut out = vec![];
        let mut it = 0usize;
        let mut used = 0u32; // bits consumed of flat[it]
        for _ in 0..n {
            let mut acc: Option<(V, u32)> = None;
            let mut need = w;
            while need > 0 {
                let (v, vw) = &flat[it];
                let take = need.min(vw - used);
                let piece = match v {
                    V::I(x) => V::I(mask(x >> used, take)),
                    V::S(e) => {
                        let r = self.x.extract(*e, used, take);
                        self.v(r)
                    }
                    _ => err!("bitcast shape"),
                };
                used += take;
                if used == *vw {
                    used = 0;
                    it += 1;
                }
                need -= take;
                acc = Some(match acc {
                    None => (piece, take),
                    Some((lo, lw)) => match (&lo, &piece) {
                        (V::I(l), V::I(h)) => (V::I(l | (h << lw)), lw + take),
                        _ => {
                            let l = self.e(&lo, lw);
                            let h = self.e(&piece, take);
                            let r = self.x.concat(h, l);
                            (self.v(r), lw + take)
                        }
                    },
                });
            }
            out.push(acc.unwrap().0);
        }
        Ok(if let T::Vector(..) = tt { V::A(Rc::new(out)) } else { out.pop().unwrap() })
    }

    // ---- main loop ----
    /// run one state to its end; new states are handed to `push`
    pub fn run(&mut self, mut st: State, push: &mut dyn FnMut(&mut Engine, State)) {
        loop {
            let r = self.exec(&mut st);
            match r {
                Ok(()) => unreachable!(),
                Err(Stop::Fork(c)) => {
                    if let Err(s) = self.fork(&mut st, c, push) {
                        self.finish(st, s);
                        return;
                    }
                    if self.stop_now || self.abandon {
                        return;
                    }
                }
                Err(s) => {
                    self.finish(st, s);
                    return;
                }
            }
        }
    }
    fn fork(&mut self, st: &mut State, c: E, push: &mut dyn FnMut(&mut Engine, State)) -> R<()> {
        let nc = self.x.not(c);
        let model = st.model.clone();
        let v = self.x.eval(c, &model) == 1;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.s.feasible(&mut self.x, &st.pc, other, &model) {
            Err(_) => err!("solver gave up on {}", self.x.show(c, 6)),
            Ok(None) => {
                st.learn(&mut self.x, mine);
            }
            Ok(Some(m)) => {
                self.stats.forks += 1;
                if self.cfg.trace {
                    *self.hotforks.entry((st.top.f.sym, st.top.blk, st.top.ip)).or_default() += 1;
                }
                if std::time::Instant::now() > self.cfg.deadline {
                    err!("deadline");
                }
                st.forks += 1;
                let mut s2 = st.clone();
                s2.model = m;
                s2.add(&mut self.x, other);
                st.add(&mut self.x, mine);
                push(self, s2);
            }
        }
        Ok(())
    }
    fn finish(&mut self, st: State, s: Stop) {
        self.stats.steps += st.steps;
        match s {
            Stop::Done | Stop::Exit => {
                self.stats.paths += 1;
                for c in st.covers.iter() {
                    *self.cover.entry(c.clone()).or_default() += 1;
                }
                let k = self.stats.paths;
                if self.completed.len() < 40 || (k & (k - 1)) == 0 {
                    let ins = self.inputs_of(&st, &st.model);
                    self.x.new_epoch();
                    let model = st.model.clone();
                    let obs = st
                        .observed
                        .iter()
                        .map(|v| match v {
                            V::I(k) => *k,
                            V::S(e) => self.x.ev(*e, &model),
                            _ => 0,
                        })
                        .collect();
                    self.completed.push((ins, obs));
                }
            }
            Stop::Pruned => self.stats.pruned += 1,
            Stop::Panic(what) => {
                self.stats.panics += 1;
                if st.may_panic {
                    self.stats.paths += 1;
                    return;
                }
                let f = Fail {
                    kind: "panic".into(),
                    id: what,
                    kf: String::new(),
                    inputs: self.inputs_of(&st, &st.model),
                    stack: self.stack(&st),
                };
                self.fails.push(f);
                self.stop_now = true;
            }
            Stop::Err(e) => {
                let f = Fail {
                    kind: "error".into(),
                    id: e,
                    kf: String::new(),
                    inputs: self.inputs_of(&st, &st.model),
                    stack: self.stack(&st),
                };
                let late = f.id.starts_with("deadline");
                self.fails.push(f);
                // other paths may still decide the question; the run as a whole stays inconclusive
                if late || self.fails.len() > 20 {
                    self.stop_now = true;
                }
            }
            Stop::Fork(_) => unreachable!(),
        }
    }

    #[inline]
    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => st.top.regs[*r as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }
    fn goto(&mut self, st: &mut State, to: u32) {
        let from = st.top.blk;
        let f: *const Func = Rc::as_ptr(&st.top.f);
        let b = unsafe { &(&(*f).blocks)[to as usize] };
        if b.phis.len() == 1 {
            let (d, inc) = &b.phis[0];
            let o = &inc.iter().find(|(p, _)| *p == from).expect("phi").1;
            let v = self.op(st, o);
            st.top.regs[*d as usize] = v;
        } else if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (_, inc) in &b.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi").1;
                vals.push(self.op(st, o));
            }
            for ((d, _), v) in b.phis.iter().zip(vals) {
                st.top.regs[*d as usize] = v;
            }
        }
        st.top.blk = to;
        st.top.ip = 0;
    }

    fn exec(&mut self, st: &mut State) -> R<()> {
        'frame: loop {
            let f: *const Func = Rc::as_ptr(&st.top.f);
            let mut insts: &[I] = unsafe { &(&(*f).blocks)[st.top.blk as usize].insts };
            loop {
                st.steps += 1;
                if st.steps & 0xfffff == 0 {
                    if st.steps > self.cfg.max_steps {
                        err!("step budget exceeded in {}", self.stack(st).iter().take(8).cloned().collect::<Vec<_>>().join(" < "));
                    }
                    if std::time::Instant::now() > self.cfg.deadline {
                        err!("deadline");
                    }
                }
                let ins = unsafe { &*(&insts[st.top.ip as usize] as *const I) };
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        st.top.regs[$d as usize] = v;
                    }};
                }
                match ins {
                    I::Bin { op, w, n, dst, a, b } => {
                        let r = if *n == 0 {
                            let (x, y) = (self.op(st, a), self.op(st, b));
                            self.bin(*op, *w, &x, &y)?
                        } else {
                            let (x, y) = (self.op(st, a), self.op(st, b));
                            self.lanes(*n, &x, &y, |s, p, q| s.bin(*op, *w, p, q))?
                        };
                        set!(*dst, r);
                    }
                    I::Icmp { p, w, n, dst, a, b } => {
                        let (x, y) = (self.op(st, a), self.op(st, b));
                        let r = if *n == 0 {
                            self.icmp(*p, *w, &x, &y)
                        } else {
                            self.lanes(*n, &x, &y, |s, c, d| Ok(s.icmp(*p, *w, c, d)))?
                        };
                        set!(*dst, r);
                    }
                    I::Fcmp { p, w, n, dst, a, b } => {
                        let (x, y) = (self.op(st, a), self.op(st, b));
                        let r = self.lanes(*n, &x, &y, |s, c, d| Ok(s.fcmp(*p, *w, c, d)))?;
                        set!(*dst, r);
                    }
                    I::Fneg { w, n, dst, a } => {
                        let x = self.op(st, a);
                        let sb = V::I(1u128 << (w - 1));
                        let r = if *n == 0 {
                            self.bin(BinOp::Xor, *w, &x, &sb)?
                        } else {
                            self.lanes(*n, &x, &x, |s, p, _| s.bin(BinOp::Xor, *w, p, &sb))?
                        };
                        set!(*dst, r);
                    }
                    I::Load { ty, dst, p } => {
                        let a = self.op(st, p);
                        let r = self.load(st, *ty, &a)?;
                        set!(*dst, r);
                    }
                    I::Store { ty, v, p } => {
                        let a = self.op(st, p);
                        let x = self.op(st, v);
                        self.store(st, *ty, &x, &a)?;
                    }
                    I::Gep { dst, base, off, idx } => {
                        let b = self.op(st, base);
                        let r = if let V::I(k) = &b {
                            let mut a = (*k as u64).wrapping_add(*off);
                            let mut sy = NONE;
                            for (o, scale, w) in idx.iter() {
                                match self.op(st, o) {
                                    V::I(i) => a = a.wrapping_add((sext(i, *w) as i64 as u64).wrapping_mul(*scale)),
                                    V::S(e) => {
                                        let e = if *w < 64 { self.x.sext(e, 64) } else { e };
                                        let sc = self.x.c(*scale as u128, 64);
                                        let t = self.x.mul(e, sc);
                                        sy = if sy == NONE { t } else { self.x.add(sy, t) };
                                    }
                                    _ => err!("gep index"),
                                }
                            }
                            if sy == NONE {
                                V::I(a as u128)
                            } else {
                                let k = self.x.c(a as u128, 64);
                                let r = self.x.add(sy, k);
                                self.v(r)
                            }
                        } else {
                            let V::S(mut e) = b else { err!("gep base") };
                            let k = self.x.c(*off as u128, 64);
                            e = self.x.add(e, k);
                            for (o, scale, w) in idx.iter() {
                                let i = self.op(st, o);
                                let ie = self.e(&i, *w);
                                let ie = if *w < 64 { self.x.sext(ie, 64) } else { ie };
                                let sc = self.x.c(*scale as u128, 64);
                                let t = self.x.mul(ie, sc);
                                e = self.x.add(e, t);
                            }
                            self.v(e)
                        };
                        set!(*dst, r);
                    }
                    I::Cast { k, from, to, dst, a } => {
                        let x = self.op(st, a);
                        let r = self.cast(*k, *from, *to, &x)?;
                        set!(*dst, r);
                    }
                    I::Select { ty, vec, dst, c, a, b } => {
                        let cv = self.op(st, c);
                        let r = if *vec {
                            let V::A(cs) = cv else { err!("select vec") };
                            let (V::A(p), V::A(q)) = (self.op(st, a), self.op(st, b)) else { err!("select vec") };
                            let et = self.m.types.field(*ty, 0);
                            let mut out = vec![];
                            for k in 0..cs.len() {
                                out.push(match &cs[k] {
                                    V::I(1) => p[k].clone(),
                                    V::I(_) => q[k].clone(),
                                    V::S(e) => self.ite_v(*e, &p[k], &q[k], et)?,
                                    _ => err!("select vec"),
                                });
                            }
                            V::A(Rc::new(out))
                        } else {
                            match cv {
                                V::I(1) => self.op(st, a),
                                V::I(_) => self.op(st, b),
                                V::S(e) => {
                                    let e = self.cond(st, e);
                                    if let Some(k) = self.x.cv(e) {
                                        if k == 1 { self.op(st, a) } else { self.op(st, b) }
                                    } else {
                                        let (p, q) = (self.op(st, a), self.op(st, b));
                                        self.ite_v(e, &p, &q, *ty)?
                                    }
                                }
                                _ => err!("select cond"),
                            }
                        };
                        set!(*dst, r);
                    }
                    I::ExtractValue { dst, a, path } => {
                        let mut v = self.op(st, a);
                        for k in path.iter() {
                            let V::A(x) = &v else { err!("extractvalue") };
                            let n = x[*k as usize].clone();
                            v = n;
                        }
                        set!(*dst, v);
                    }
                    I::InsertValue { ty: _, dst, a, v, path } => {
                        let mut agg = self.op(st, a);
                        let x = self.op(st, v);
                        {
                            let mut cur = &mut agg;
                            for k in path.iter() {
                                let V::A(vs) = cur else { err!("insertvalue") };
                                cur = &mut Rc::make_mut(vs)[*k as usize];
                            }
                            *cur = x;
                        }
                        set!(*dst, agg);
                    }
                    I::ExtractElement { ty, dst, a, i } => {
                        let V::A(vs) = self.op(st, a) else { err!("extractelement") };
                        let iv = self.op(st, i);
                        let r = match iv {
                            V::I(k) => vs[k as usize % vs.len()].clone(),
                            V::S(e) => {
                                let et = self.m.types.field(*ty, 0);
                                let w = self.x.w(e);
                                let mut r = vs[0].clone();
                                for k in 1..vs.len() {
                                    let kc = self.x.c(k as u128, w);
                                    let c = self.x.eq(e, kc);
                                    r = self.ite_v(c, &vs[k], &r, et)?;
                                }
                                r
                            }
                            _ => err!("extractelement"),
                        };
                        set!(*dst, r);
                    }
                    I::InsertElement { ty: _, dst, a, v, i } => {
                        let V::A(mut vs) = self.op(st, a) else { err!("insertelement") };
                        let iv = self.op(st, i);
                        let k = self.concretize(st, &iv, 64)?;
                        let n = vs.len();
                        Rc::make_mut(&mut vs)[k as usize % n] = self.op(st, v);
                        set!(*dst, V::A(vs));
                    }
                    I::Shuffle { dst, ty: _, a, b, mask } => {
                        let (V::A(p), V::A(q)) = (self.op(st, a), self.op(st, b)) else { err!("shuffle") };
                        let out = mask
                            .iter()
                            .map(|k| {
                                let k = *k as usize;
                                if k < p.len() { p[k].clone() } else { q[(k - p.len()) % q.len()].clone() }
                            })
                            .collect();
                        set!(*dst, V::A(Rc::new(out)));
                    }
                    I::Alloca { dst, size, n } => {
                        let nv = self.op(st, n);
                        let n = self.concretize(st, &nv, 64)? as u64;
                        let depth = st.frames.len() as u32;
                        let id = self.cfg.stack_base + depth;
                        let off = (st.top.sp + 15) & !15;
                        let end = off as usize + (size * n) as usize;
                        let slot = st.mem.slot(id);
                        match slot {
                            Some(o) => {
                                let o = Rc::make_mut(o);
                                if st.top.sp == 0 {
                                    o.data.clear();
                                    o.sym = None;
                                }
                                o.data.resize(end, 0);
                                if let Some(s) = &mut o.sym {
                                    s.resize(end, NONE);
                                }
                            }
                            None => *slot = Some(Rc::new(Obj { data: vec![0; end], sym: None, ro: false })),
                        }
                        st.top.sp = (end as u32).max(off + 1);
                        set!(*dst, V::I((((id as u64) << OBJ_SHIFT) + off as u64) as u128));
                    }
                    I::Copy { dst, a } => {
                        let v = self.op(st, a);
                        set!(*dst, v);
                    }
                    I::Nop => {}
                    I::Br(t) => {
                        self.goto(st, *t);
                        insts = unsafe { &(&(*f).blocks)[st.top.blk as usize].insts };
                        continue;
                    }
                    I::CondBr { c, t, f: fl } => {
                        let k = match self.op(st, c) {
                            V::I(k) => k == 1,
                            V::S(e) => self.need(st, e)?,
                            _ => err!("branch condition"),
                        };
                        self.goto(st, if k { *t } else { *fl });
                        insts = unsafe { &(&(*f).blocks)[st.top.blk as usize].insts };
                        continue;
                    }
                    I::Switch { w, v, def, cases, map } => {
                        let x = self.op(st, v);
                        let to = match x {
                            V::I(k) => match map {
                                Some(m) => *m.get(&k).unwrap_or(def),
                                None => cases.iter().find(|(c, _)| *c == k).map(|(_, l)| *l).unwrap_or(*def),
                            },
                            V::S(e) => self.switch(st, e, *w, *def, cases)?,
                            _ => err!("switch value"),
                        };
                        self.goto(st, to);
                        insts = unsafe { &(&(*f).blocks)[st.top.blk as usize].insts };
                        continue;
                    }
                    I::Ret(v) => {
                        let r = v.as_ref().map(|o| self.op(st, o));
                        if st.frames.is_empty() {
                            return Err(Stop::Done);
                        }
                        let depth = st.frames.len() as u32;
                        if st.top.sp > 0 {
                            // keep the buffer for reuse but make it unreadable
                            let id = self.cfg.stack_base + depth;
                            if let Some(o) = st.mem.slot(id) {
                                if let Some(o) = Rc::get_mut(o) {
                                    o.data.clear();
                                    o.sym = None;
                                } else {
                                    *st.mem.slot(id) = None;
                                }
                            }
                        }
                        let fr = st.frames.pop().unwrap();
                        let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        let old = std::mem::replace(&mut st.top, fr);
                        if let (Some(d), Some(v)) = (old.ret_dst, r) {
                            st.top.regs[d as usize] = v;
                        }
                        if let Some(n) = old.normal {
                            self.goto(st, n);
                        } else {
                            st.top.ip += 1;
                        }
                        continue 'frame;
                    }
                    I::Call { dst, callee, args, ret, normal } => {
                        let target = match callee {
                            Callee::Sym(s) => *s,
                            Callee::Op(o) => {
                                let v = self.op(st, o);
                                let a = self.concretize(st, &v, 64)? as u64;
                                if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.cfg.nsyms as u64 {
                                    err!("call through {a:#x} in {}", self.stack(st)[0]);
                                }
                                ((a - FUNC_BASE) / 16) as u32
                            }
                            Callee::Asm(pass) => {
                                if let Some(d) = dst {
                                    let z = if !*pass {
                                        self.m.zero(*ret)
                                    } else if args.len() == 1 {
                                        self.op(st, &args[0].0)
                                    } else {
                                        V::A(Rc::new(args.iter().map(|(a, _)| self.op(st, a)).collect()))
                                    };
                                    set!(*d, z);
                                }
                                st.top.ip += 1;
                                continue;
                            }
                        };
                        let k = match self.kinds[target as usize] {
                            K::Unset => self.classify(target),
                            k => k,
                        };
                        match k {
                            K::Fmt if st.no_fmt && matches!(self.m.types.v[*ret as usize], T::Int(1)) => {
                                if let Some(d) = dst {
                                    set!(*d, V::I(0));
                                }
                                if let Some(n) = normal {
                                    self.goto(st, *n);
                                    insts = unsafe { &(&(*f).blocks)[st.top.blk as usize].insts };
                                    continue;
                                }
                            }
                            K::Normal | K::Fmt => {
                                let fnc = self.m.func(target);
                                self.executed[target as usize] = true;
                                if st.frames.len() as u32 >= self.cfg.max_depth - 1 {
                                    err!("call depth exceeded in {}", self.stack(st).iter().take(8).cloned().collect::<Vec<_>>().join(" < "));
                                }
                                let mut regs = vec![V::I(0); fnc.nregs as usize];
                                for (i, (a, _)) in args.iter().enumerate() {
                                    if i < fnc.args.len() {
                                        regs[fnc.args[i] as usize] = self.op(st, a);
                                    }
                                }
                                let nf = Frame { f: fnc, regs, blk: 0, ip: 0, ret_dst: *dst, normal: *normal, sp: 0 };
                                let old = std::mem::replace(&mut st.top, nf);
                                st.frames.push(Rc::new(old));
                                continue 'frame;
                            }
                            K::Panic => {
                                let n = self.m.syms[target as usize].name.clone();
                                return Err(Stop::Panic(n));
                            }
                            K::Ext(h) => {
                                let vals: Vec<V> = args.iter().map(|(a, _)| self.op(st, a)).collect();
                                let tys: Vec<Ty> = args.iter().map(|(_, t)| *t).collect();
                                let r = crate::ext::call(self, st, h, &vals, &tys, *ret)?;
                                if let (Some(d), Some(v)) = (dst, r) {
                                    set!(*d, v);
                                }
                                if let Some(n) = normal {
                                    self.goto(st, *n);
                                    insts = unsafe { &(&(*f).blocks)[st.top.blk as usize].insts };
                                    continue;
                                }
                            }
                            K::Unset => unreachable!(),
                        }
                    }
                    I::AtomicRmw { op, ty, dst, p, v } => {
                        let a = self.op(st, p);
                        let w = self.m.types.bits(*ty);
                        let old = self.load(st, *ty, &a)?;
                        let x = self.op(st, v);
                        let new = match op.as_str() {
                            "xchg" => x,
                            "add" => self.bin(BinOp::Add, w, &old, &x)?,
                            "sub" => self.bin(BinOp::Sub, w, &old, &x)?,
                            "and" => self.bin(BinOp::And, w, &old, &x)?,
                            "or" => self.bin(BinOp::Or, w, &old, &x)?,
                            "xor" => self.bin(BinOp::Xor, w, &old, &x)?,
                            o => err!("atomicrmw {o}"),
                        };
                        self.store(st, *ty, &new, &a)?;
                        set!(*dst, old);
                    }
                    I::CmpXchg { ty, dst, p, old, new } => {
                        let a = self.op(st, p);
                        let w = self.m.types.bits(*ty);
                        let cur = self.load(st, *ty, &a)?;
                        let o = self.op(st, old);
                        let c = self.icmp(Pred::Eq, w, &cur, &o);
                        let ok = match c {
                            V::I(k) => k == 1,
                            V::S(e) => self.need(st, e)?,
                            _ => unreachable!(),
                        };
                        if ok {
                            let n = self.op(st, new);
                            self.store(st, *ty, &n, &a)?;
                        }
                        set!(*dst, V::A(Rc::new(vec![cur, V::I(ok as u128)])));
                    }
                    I::Unreachable => {
                        err!("reached unreachable in {}", self.stack(st).iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                    }
                    I::Bad(s) => err!("unsupported instruction {s}"),
                }
                st.top.ip += 1;
            }
        }
    }
    /// a condition simplified by what the path knows
    fn cond(&mut self, st: &mut State, e: E) -> E {
        if st.knows(e) {
            return self.x.tru();
        }
        let n = self.x.not(e);
        if st.knows(n) {
            return self.x.fls();
        }
        if st.bind.is_empty() { e } else { self.substitute(st, e) }
    }
    fn switch(&mut self, st: &mut State, e: E, w: u32, def: u32, cases: &[(u128, u32)]) -> R<u32> {
        let e = self.strip(st, e);
        if let Some(k) = self.x.cv(e) {
            return Ok(cases.iter().find(|(c, _)| *c == k).map(|(_, l)| *l).unwrap_or(def));
        }
        // group by target
        let mut targets: Vec<(u32, E)> = vec![];
        for (c, l) in cases {
            let kc = self.x.c(*c, w);
            let q = self.x.eq(e, kc);
            if self.x.is_false(q) {
                continue;
            }
            match targets.iter_mut().find(|(t, _)| t == l) {
                Some((_, o)) => *o = self.x.or(*o, q),
                None => targets.push((*l, q)),
            }
        }
        // try the target of the current model first
        let k = self.x.eval(e, &st.model.clone());
        let t = cases.iter().find(|(c, _)| *c == k).map(|(_, l)| *l).unwrap_or(def);
        let cond = if let Some((_, c)) = targets.iter().find(|(x, _)| *x == t) {
            let mut c = *c;
            if t == def {
                // default shares the block: everything that is not another target
                let mut o = self.x.fls();
                for (x, q) in &targets {
                    if *x != t {
                        o = self.x.or(o, *q);
                    }
                }
                c = self.x.not(o);
            }
            c
        } else {
            let mut o = self.x.fls();
            for (_, q) in &targets {
                o = self.x.or(o, *q);
            }
            self.x.not(o)
        };
        if self.need(st, cond)? {
            return Ok(t);
        }
        err!("switch: inconsistent model")
    }

    fn classify(&mut self, s: u32) -> K {
        let name = self.m.syms[s as usize].name.clone();
        let has_body = matches!(self.m.syms[s as usize].kind, SymKind::Func { .. });
        let k = if name.contains("4core9panicking")
            || name.contains("rust_begin_unwind")
            || name.contains("rust_panic")
            || name.contains("handle_alloc_error")
            || name.contains("7raw_vec17capacity_overflow")
            || name.contains("7raw_vec12handle_error")
            || name.ends_with("abort_internal")
            || name.contains("4core9panicking")
            || name == "abort"
        {
            K::Panic
        } else if let Some(h) = crate::ext::handler(&name, has_body) {
            let i = match self.ext_names.iter().position(|n| *n == h) {
                Some(i) => i,
                None => {
                    self.ext_names.push(h.clone());
                    self.ext_names.len() - 1
                }
            };
            K::Ext(i as u16)
        } else if has_body
            && (name.ends_with("4core3fmt5write")
                || name.contains("3fmt7Display3fmt")
                || name.contains("3fmt5Debug3fmt")
                || (name.contains("4core3fmt3num") && name.contains("3fmt") && name.contains("_RNvX"))
                || (name.contains("4core3fmtNtB5_9Formatter") && name.starts_with("_RNvMsa_")))
        {
            K::Fmt
        } else {
            K::Normal
        };
        self.kinds[s as usize] = k;
        k
    }

    // ---- API helpers for ext.rs ----
    pub fn x_need(&mut self, st: &mut State, c: E) -> R<bool> {
        self.need(st, c)
    }
    pub fn x_load(&mut self, st: &State, w: u32, a: u64) -> R<V> {
        self.load_scalar(st, w, a)
    }
    pub fn x_store(&mut self, st: &mut State, w: u32, a: u64, v: &V) -> R<()> {
        self.store_scalar(st, w, a, v)
    }
    pub fn x_copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        self.copy(st, d, s, n)
    }
    pub fn x_cstr(&mut self, st: &mut State, p: &V) -> R<String> {
        self.cstr(st, p)
    }
    pub fn x_load_sym(&mut self, st: &mut State, w: u32, p: &V) -> R<V> {
        self.load_as_int(st, w, p)
    }
    pub fn x_size(&mut self, st: &State, a: u64) -> Option<usize> {
        let id = (a >> OBJ_SHIFT) as u32;
        self.obj(st, id).map(|o| o.data.len())
    }
    pub fn x_fill(&mut self, st: &mut State, a: u64, n: usize, v: &V) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let id = (a >> OBJ_SHIFT) as u32;
        let off = (a & 0xffff_ffff) as usize;
        let Some(o) = self.obj_mut(st, id) else { return Err(self.bad_addr("memset", a, n, st)) };
        if off + n > o.data.len() || o.ro {
            return Err(self.bad_addr("memset", a, n, st));
        }
        match v {
            V::I(k) => {
                o.data[off..off + n].fill(*k as u8);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(NONE);
                }
            }
            V::S(e) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![NONE; len]);
                s[off..off + n].fill(*e);
                o.data[off..off + n].fill(0);
            }
            _ => err!("memset value"),
        }
        Ok(())
    }
    pub fn x_bytes(&mut self, st: &State, a: u64, n: usize) -> R<Vec<V>> {
        let mut out = Vec::with_capacity(n);
        if n == 0 {
            return Ok(out);
        }
        for k in 0..n {
            out.push(self.load_scalar(st, 8, a + k as u64)?);
        }
        Ok(out)
    }
    pub fn fresh(&mut self, st: &mut State, name: &str, w: u32) -> E {
        let occ = Rc::make_mut(&mut st.occ);
        let k = occ.entry(name.to_string()).or_insert(0);
        let full = format!("{name}#{k}");
        *k += 1;
        let e = self.x.var(&full, w);
        if let N::Var(i) = self.x.n(e) {
            Rc::make_mut(&mut st.inputs).push(i);
        }
        e
    }
    /// restrict the path; Err(Pruned) when infeasible
    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        let c = self.cond(st, c);
        if self.x.is_true(c) {
            return Ok(());
        }
        let model = st.model.clone();
        match self.s.feasible(&mut self.x, &st.pc, c, &model) {
            Err(_) => err!("solver gave up in assume"),
            Ok(None) => Err(Stop::Pruned),
            Ok(Some(m)) => {
                st.model = m;
                st.add(&mut self.x, c);
                Ok(())
            }
        }
    }
    /// prove or refute; kf = (id, condition under which a failure is the listed one)
    pub fn assert(&mut self, st: &mut State, ok: E, id: &str, kf: Option<(String, E)>) -> R<()> {
        self.stats.asserts += 1;
        let ok = self.cond(st, ok);
        let ob = self.obligations.entry(id.to_string()).or_default();
        ob.0 += 1;
        if self.x.is_true(ok) {
            self.stats.asserts_concrete += 1;
            return Ok(());
        }
        ob.1 += 1;
        self.stats.asserts_solver += 1;
        let bad = self.x.not(ok);
        let model = st.model.clone();
        let mut kf = kf;
        if let Some((k, _)) = &kf {
            if !self.cfg.kf.contains(k) {
                kf = None;
            }
        }
        let viol = match &kf {
            Some((_, c)) => {
                let nc = self.x.not(*c);
                self.x.and(bad, nc)
            }
            None => bad,
        };
        match self.s.feasible(&mut self.x, &st.pc, viol, &model) {
            Err(_) => err!("solver gave up on assertion {id}"),
            Ok(Some(m)) => {
                let f = Fail {
                    kind: "assert".into(),
                    id: id.to_string(),
                    kf: String::new(),
                    inputs: self.inputs_of(st, &m),
                    stack: self.stack(st),
                };
                self.fails.push(f);
                self.stop_now = true;
                return Err(Stop::Pruned);
            }
            Ok(None) => {}
        }
        if let Some((k, c)) = &kf {
            let known = self.x.and(bad, *c);
            match self.s.feasible(&mut self.x, &st.pc, known, &model) {
                Err(_) => err!("solver gave up on assertion {id}"),
                Ok(Some(m)) => {
                    if !self.fails.iter().any(|f| f.kf == *k) {
                        let f = Fail {
                            kind: "known".into(),
                            id: id.to_string(),
                            kf: k.clone(),
                            inputs: self.inputs_of(st, &m),
                            stack: vec![],
                        };
                        self.fails.push(f);
                    }
                }
                Ok(None) => {}
            }
            return self.assume(st, ok);
        }
        // proved on this path: nothing is learnt
        Ok(())
    }
}

/// concrete 256-bit values are V::I (below 2^128) or V::A([low, high])
fn wide_parts(v: &V) -> R<(u128, u128)> {
    match v {
        V::I(x) => Ok((*x, 0)),
        V::A(p) if p.len() == 2 => match (&p[0], &p[1]) {
            (V::I(l), V::I(h)) => Ok((*l, *h)),
            _ => err!("i256 value"),
        },
        _ => err!("symbolic i256 value"),
    }
}
fn wide_bin(op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
    if w != 256 {
        err!("i{w} arithmetic");
    }
    let ((al, ah), (bl, bh)) = (wide_parts(a)?, wide_parts(b)?);
    let (l, h) = match op {
        BinOp::Mul => {
            let m = u64::MAX as u128;
            let (a0, a1, b0, b1) = (al & m, al >> 64, bl & m, bl >> 64);
            let (p00, p01, p10, p11) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
            let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
            let lo = (p00 & m) | (mid << 64);
            let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
            (lo, hi.wrapping_add(al.wrapping_mul(bh)).wrapping_add(ah.wrapping_mul(bl)))
        }
        BinOp::Add => {
            let (l, c) = al.overflowing_add(bl);
            (l, ah.wrapping_add(bh).wrapping_add(c as u128))
        }
        BinOp::LShr if bh == 0 && bl < 256 => match bl as u32 {
            0 => (al, ah),
            k @ 1..128 => ((al >> k) | (ah << (128 - k)), ah >> k),
            k => (ah >> (k - 128), 0),
        },
        BinOp::And => (al & bl, ah & bh),
        BinOp::Or => (al | bl, ah | bh),
        _ => err!("i256 {op:?}"),
    };
    Ok(if h == 0 { V::I(l) } else { V::A(Rc::new(vec![V::I(l), V::I(h)])) })
}
