//! Textual LLVM-IR reader: whole module index, lazily decoded function bodies.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    Array(u64, Ty),
    Vector(u32, Ty),
    Struct(Vec<Ty>, bool),
    Other(String),
}

#[derive(Default)]
pub struct Types {
    pub v: Vec<T>,
    map: HashMap<T, Ty>,
    pub named: HashMap<String, Ty>,
    layout: HashMap<Ty, Rc<Vec<u64>>>,
}

impl Types {
    pub fn mk(&mut self, t: T) -> Ty {
        if let Some(i) = self.map.get(&t) {
            return *i;
        }
        let i = self.v.len() as Ty;
        self.v.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, t: Ty) -> &T {
        &self.v[t as usize]
    }
    /// ABI alignment in bytes (x86-64 data layout as printed by rustc)
    pub fn align(&self, t: Ty) -> u64 {
        match self.get(t) {
            T::Void => 1,
            T::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            T::Ptr | T::Double => 8,
            T::Float => 4,
            T::Half => 2,
            T::Array(_, e) => self.align(*e),
            T::Vector(..) => self.size(t).next_power_of_two().max(1),
            T::Struct(_, true) => 1,
            T::Struct(fs, false) => fs.iter().map(|f| self.align(*f)).max().unwrap_or(1),
            T::Other(_) => 1,
        }
    }
    pub fn store_size(&self, t: Ty) -> u64 {
        match self.get(t) {
            T::Int(w) => (*w as u64).div_ceil(8),
            T::Vector(n, e) => (*n as u64 * self.bits(*e) as u64).div_ceil(8),
            _ => self.size(t),
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        match self.get(t) {
            T::Void => 0,
            T::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align(t);
                b.div_ceil(a) * a
            }
            T::Ptr | T::Double => 8,
            T::Float => 4,
            T::Half => 2,
            T::Array(n, e) => n * self.size(*e),
            T::Vector(n, e) => (*n as u64 * self.bits(*e) as u64).div_ceil(8),
            T::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { self.align(*f) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + self.size(*f);
                }
                (o + al - 1) / al * al
            }
            T::Other(_) => 0,
        }
    }
    pub fn bits(&self, t: Ty) -> u32 {
        match self.get(t) {
            T::Int(w) => *w,
            T::Ptr | T::Double => 64,
            T::Float => 32,
            T::Half => 16,
            T::Vector(n, e) => n * self.bits(*e),
            _ => 0,
        }
    }
    pub fn offsets(&mut self, t: Ty) -> Rc<Vec<u64>> {
        if let Some(l) = self.layout.get(&t) {
            return l.clone();
        }
        let mut r = vec![];
        if let T::Struct(fs, packed) = self.get(t).clone() {
            let mut o = 0;
            for f in &fs {
                let a = if packed { 1 } else { self.align(*f) };
                o = (o + a - 1) / a * a;
                r.push(o);
                o += self.size(*f);
            }
        }
        let r = Rc::new(r);
        self.layout.insert(t, r.clone());
        r
    }
    pub fn field(&self, t: Ty, i: u64) -> Ty {
        match self.get(t) {
            T::Struct(fs, _) => fs[i as usize],
            T::Array(_, e) | T::Vector(_, e) => *e,
            _ => panic!("field of non aggregate"),
        }
    }
    pub fn nfields(&self, t: Ty) -> u64 {
        match self.get(t) {
            T::Struct(fs, _) => fs.len() as u64,
            T::Array(n, _) => *n,
            T::Vector(n, _) => *n as u64,
            _ => 0,
        }
    }
}

/// Runtime value: concrete scalar, symbolic scalar, aggregate/vector
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(u128),
    S(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    FpExt,
    FpTrunc,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32),
    Op(Op),
    Asm(bool),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, n: u32, dst: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u32, n: u32, dst: u32, a: Op, b: Op },
    Fcmp { p: u8, w: u32, n: u32, dst: u32, a: Op, b: Op },
    Fneg { w: u32, n: u32, dst: u32, a: Op },
    Load { ty: Ty, dst: u32, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: u64, idx: Box<[(Op, u64, u32)]> },
    Cast { k: Cast, from: Ty, to: Ty, dst: u32, a: Op },
    Select { ty: Ty, vec: bool, dst: u32, c: Op, a: Op, b: Op },
    ExtractValue { dst: u32, a: Op, path: Box<[u32]> },
    InsertValue { ty: Ty, dst: u32, a: Op, v: Op, path: Box<[u32]> },
    ExtractElement { ty: Ty, dst: u32, a: Op, i: Op },
    InsertElement { ty: Ty, dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, ty: Ty, a: Op, b: Op, mask: Box<[i32]> },
    Alloca { dst: u32, size: u64, n: Op },
    Call { dst: Option<u32>, callee: Callee, args: Box<[(Op, Ty)]>, ret: Ty, normal: Option<u32> },
    Copy { dst: u32, a: Op },
    AtomicRmw { op: String, ty: Ty, dst: u32, p: Op, v: Op },
    CmpXchg { ty: Ty, dst: u32, p: Op, old: Op, new: Op },
    Nop,
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, def: u32, cases: Box<[(u128, u32)]>, map: Option<Box<HashMap<u128, u32>>> },
    Ret(Option<Op>),
    Unreachable,
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub sym: u32,
    pub nregs: u32,
    pub args: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ret: Ty,
}

pub enum SymKind {
    Func { start: usize, end: usize },
    Global { start: usize, end: usize },
    Alias(String),
    Declare,
}
pub struct Sym {
    pub name: String,
    pub kind: SymKind,
}

pub struct Module {
    pub src: &'static [u8],
    pub types: Types,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub funcs: HashMap<u32, Rc<Func>>,
}

pub const OBJ_SHIFT: u32 = 32;
pub const FUNC_BASE: u64 = 0x7000_0000_0000_0000;

impl Module {
    pub fn load(src: &'static [u8]) -> Module {
        let mut m = Module {
            src,
            types: Types::default(),
            syms: vec![],
            by_name: HashMap::new(),
            funcs: HashMap::new(),
        };
        m.types.mk(T::Void);
        let mut pos = 0;
        let n = src.len();
        let mut named: Vec<(String, usize)> = vec![];
        while pos < n {
            let eol = memchr(b'\n', &src[pos..]).map(|x| pos + x).unwrap_or(n);
            let line = &src[pos..eol];
            if line.is_empty() {
            } else if line[0] == b'@' {
                let mut p = P { s: src, i: pos + 1 };
                let name = p.name();
                p.ws();
                let rest = &src[p.i..eol];
                let kind = if find(rest, b" alias ").is_some() && !rest.starts_with(b"= private") {
                    // = [linkage] alias T, ptr @target
                    let at = rest.iter().rposition(|c| *c == b'@').unwrap();
                    let mut q = P { s: src, i: p.i + at + 1 };
                    SymKind::Alias(q.name())
                } else {
                    SymKind::Global { start: p.i, end: eol }
                };
                m.add(name, kind);
            } else if line.starts_with(b"define ") {
                let at = memchr(b'@', line).unwrap();
                // the function name is the first '@' outside of attributes
                let mut q = P { s: src, i: pos + at + 1 };
                let name = q.name();
                // find the end: line "}"
                let mut e = eol + 1;
                loop {
                    let el = memchr(b'\n', &src[e..]).map(|x| e + x).unwrap_or(n);
                    if src[e] == b'}' {
                        break;
                    }
                    e = el + 1;
                }
                m.add(name, SymKind::Func { start: pos, end: e });
                pos = e + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let at = memchr(b'@', line).unwrap();
                let mut q = P { s: src, i: pos + at + 1 };
                let name = q.name();
                m.add(name, SymKind::Declare);
            } else if line[0] == b'%' {
                let mut p = P { s: src, i: pos + 1 };
                let name = p.name();
                p.ws();
                p.lit("=");
                p.ws();
                p.lit("type");
                p.ws();
                named.push((name, p.i));
            }
            pos = eol + 1;
        }
        for (nm, at) in named {
            let mut p = P { s: src, i: at };
            let t = if p.peek_lit("opaque") { m.types.mk(T::Other("opaque".into())) } else { m.ty(&mut p) };
            m.types.named.insert(nm, t);
        }
        m
    }
    fn add(&mut self, name: String, kind: SymKind) {
        if self.by_name.contains_key(&name) {
            return;
        }
        let i = self.syms.len() as u32;
        self.by_name.insert(name.clone(), i);
        self.syms.push(Sym { name, kind });
    }
    pub fn resolve(&self, name: &str) -> Option<u32> {
        let mut i = *self.by_name.get(name)?;
        while let SymKind::Alias(t) = &self.syms[i as usize].kind {
            i = *self.by_name.get(t)?;
        }
        Some(i)
    }
    pub fn sym_addr(&self, i: u32) -> u64 {
        match self.syms[i as usize].kind {
            SymKind::Global { .. } => ((i as u64) + 1) << OBJ_SHIFT,
            _ => FUNC_BASE + (i as u64) * 16,
        }
    }
    pub fn addr_of(&self, name: &str) -> u64 {
        match self.resolve(name) {
            Some(i) => self.sym_addr(i),
            None => panic!("unknown symbol {name}"),
        }
    }

    pub fn ty(&mut self, p: &mut P) -> Ty {
        p.ws();
        let c = p.s[p.i];
        let t = match c {
            b'[' => {
                p.i += 1;
                p.ws();
                let n = p.uint();
                p.ws();
                p.lit("x");
                let e = self.ty(p);
                p.ws();
                p.lit("]");
                self.types.mk(T::Array(n as u64, e))
            }
            b'{' => {
                p.i += 1;
                let f = self.ty_list(p, b'}');
                self.types.mk(T::Struct(f, false))
            }
            b'<' => {
                p.i += 1;
                p.ws();
                if p.s[p.i] == b'{' {
                    p.i += 1;
                    let f = self.ty_list(p, b'}');
                    p.ws();
                    p.lit(">");
                    self.types.mk(T::Struct(f, true))
                } else {
                    let n = p.uint();
                    p.ws();
                    p.lit("x");
                    let e = self.ty(p);
                    p.ws();
                    p.lit(">");
                    self.types.mk(T::Vector(n as u32, e))
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                match self.types.named.get(&n) {
                    Some(t) => *t,
                    None => self.types.mk(T::Other(n)),
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => 0,
                    "ptr" => self.types.mk(T::Ptr),
                    "float" => self.types.mk(T::Float),
                    "double" => self.types.mk(T::Double),
                    "half" => self.types.mk(T::Half),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        let b = w[1..].parse().unwrap();
                        self.types.mk(T::Int(b))
                    }
                    _ => self.types.mk(T::Other(w.to_string())),
                }
            }
        };
        t
    }
    fn ty_list(&mut self, p: &mut P, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            p.ws();
            if p.s[p.i] == end {
                p.i += 1;
                return v;
            }
            if p.s[p.i] == b',' {
                p.i += 1;
                continue;
            }
            v.push(self.ty(p));
        }
    }

    pub fn zero(&self, t: Ty) -> V {
        match self.types.get(t) {
            T::Array(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            T::Vector(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            T::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            _ => V::I(0),
        }
    }

    /// parse a constant of type t (no registers)
    pub fn constant(&mut self, p: &mut P, t: Ty) -> V {
        p.ws();
        let c = p.s[p.i];
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                V::I(self.addr_of(&n) as u128)
            }
            b'+' | b'-' if p.s[p.i + 1].is_ascii_alphabetic() => {
                let neg = c == b'-';
                p.i += 1;
                let w = p.word();
                if p.s[p.i] == b'(' {
                    p.parens();
                }
                let d = match w {
                    "inf" => f64::INFINITY,
                    _ => f64::NAN,
                };
                let d = if neg { -d } else { d };
                match self.types.get(t) {
                    T::Float => V::I((d as f32).to_bits() as u128),
                    _ => V::I(d.to_bits() as u128),
                }
            }
            b'+' | b'-' | b'0'..=b'9' => {
                let tt = self.types.get(t).clone();
                match tt {
                    T::Float | T::Double | T::Half => {
                        let st = p.i;
                        while !matches!(p.s[p.i], b',' | b' ' | b'\n' | b')' | b']' | b'}' | b'>') {
                            p.i += 1;
                        }
                        let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                        if let Some(h) = s.strip_prefix("0x") {
                            let d = u64::from_str_radix(h, 16).expect("hex float");
                            return match tt {
                                T::Float => V::I((f64::from_bits(d) as f32).to_bits() as u128),
                                _ => V::I(d as u128),
                            };
                        }
                        let d: f64 = s.parse().expect("float literal");
                        match tt {
                            T::Float => V::I((d as f32).to_bits() as u128),
                            _ => V::I(d.to_bits() as u128),
                        }
                    }
                    _ => {
                        let neg = c == b'-';
                        if neg {
                            p.i += 1;
                        }
                        let st = p.i;
                        while p.s[p.i].is_ascii_digit() {
                            p.i += 1;
                        }
                        let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                        let w = self.types.bits(t);
                        let v: u128 = match s.parse::<u128>() {
                            Ok(v) => v,
                            Err(_) => {
                                if w > 128 { 0 } else { panic!("bad int {s}") }
                            }
                        };
                        let v = if neg { v.wrapping_neg() } else { v };
                        V::I(mask(v, w))
                    }
                }
            }
            b'{' => {
                p.i += 1;
                V::A(Rc::new(self.const_list(p, b'}')))
            }
            b'[' => {
                p.i += 1;
                V::A(Rc::new(self.const_list(p, b']')))
            }
            b'<' => {
                p.i += 1;
                p.ws();
                if p.s[p.i] == b'{' {
                    p.i += 1;
                    let l = self.const_list(p, b'}');
                    p.ws();
                    p.lit(">");
                    V::A(Rc::new(l))
                } else {
                    V::A(Rc::new(self.const_list(p, b'>')))
                }
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 1;
                let b = p.cstring();
                V::A(Rc::new(b.into_iter().map(|x| V::I(x as u128)).collect()))
            }
            b'f' if p.s[p.i..].starts_with(b"f0x") => {
                p.i += 3;
                let st = p.i;
                while p.s[p.i].is_ascii_hexdigit() {
                    p.i += 1;
                }
                let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                V::I(u128::from_str_radix(s, 16).unwrap())
            }
            _ => {
                let w = p.word();
                match w {
                    "true" => V::I(1),
                    "false" | "null" | "none" => V::I(0),
                    "undef" | "poison" | "zeroinitializer" => self.zero(t),
                    "splat" => {
                        p.ws();
                        p.lit("(");
                        let et = self.ty(p);
                        let v = self.constant(p, et);
                        p.ws();
                        p.lit(")");
                        let n = self.types.nfields(t);
                        V::A(Rc::new(vec![v; n as usize]))
                    }
                    "getelementptr" => {
                        while p.s[p.i] != b'(' {
                            p.i += 1;
                            // attribute like inrange(-8, 16)
                            if p.s[p.i] == b'(' && p.s[..p.i].ends_with(b"inrange") {
                                while p.s[p.i] != b')' {
                                    p.i += 1;
                                }
                                p.i += 1;
                            }
                        }
                        p.i += 1;
                        let st = self.ty(p);
                        p.ws();
                        p.lit(",");
                        let pt = self.ty(p);
                        let base = self.constant(p, pt);
                        let mut addr = match base {
                            V::I(v) => v as u64,
                            _ => panic!("const gep base"),
                        };
                        let mut cur = st;
                        let mut first = true;
                        loop {
                            p.ws();
                            if p.s[p.i] == b')' {
                                p.i += 1;
                                break;
                            }
                            p.lit(",");
                            let it = self.ty(p);
                            let w = self.types.bits(it);
                            let V::I(iv) = self.constant(p, it) else { panic!() };
                            let iv = sext(iv, w) as i64;
                            if first {
                                addr = addr.wrapping_add((iv as u64).wrapping_mul(self.types.size(cur)));
                                first = false;
                            } else if let T::Struct(..) = self.types.get(cur) {
                                addr = addr.wrapping_add(self.types.offsets(cur)[iv as usize]);
                                cur = self.types.field(cur, iv as u64);
                            } else {
                                cur = self.types.field(cur, 0);
                                addr = addr.wrapping_add((iv as u64).wrapping_mul(self.types.size(cur)));
                            }
                        }
                        V::I(addr as u128)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        p.ws();
                        p.lit("(");
                        let ft = self.ty(p);
                        let v = self.constant(p, ft);
                        p.ws();
                        p.lit("to");
                        let tt = self.ty(p);
                        p.ws();
                        p.lit(")");
                        match v {
                            V::I(x) => V::I(mask(x, self.types.bits(tt).max(1))),
                            o => o,
                        }
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        let w = w.to_string();
                        while p.s[p.i] != b'(' {
                            p.i += 1;
                        }
                        p.i += 1;
                        let t1 = self.ty(p);
                        let V::I(a) = self.constant(p, t1) else { panic!() };
                        p.ws();
                        p.lit(",");
                        let t2 = self.ty(p);
                        let V::I(b) = self.constant(p, t2) else { panic!() };
                        p.ws();
                        p.lit(")");
                        let r = match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        V::I(mask(r, self.types.bits(t1)))
                    }
                    "dso_local_equivalent" | "no_cfi" => {
                        p.ws();
                        self.constant(p, t)
                    }
                    other => panic!("unknown constant '{other}' at {}", p.ctx()),
                }
            }
        }
    }
    fn const_list(&mut self, p: &mut P, end: u8) -> Vec<V> {
        let mut v = vec![];
        loop {
            p.ws();
            if p.s[p.i] == end {
                p.i += 1;
                return v;
            }
            if p.s[p.i] == b',' {
                p.i += 1;
                continue;
            }
            let t = self.ty(p);
            v.push(self.constant(p, t));
        }
    }

    /// initial bytes of a global
    pub fn global_init(&mut self, s: u32) -> (Vec<u8>, bool) {
        let SymKind::Global { start, .. } = self.syms[s as usize].kind else { panic!("not a global") };
        let mut p = P { s: self.src, i: start };
        p.ws();
        p.lit("=");
        let mut ext = false;
        let mut ro = false;
        loop {
            p.ws();
            let save = p.i;
            let w = p.word().to_string();
            match w.as_str() {
                "external" | "extern_weak" => ext = true,
                "constant" => {
                    ro = true;
                    break;
                }
                "global" => break,
                "" => panic!("global syntax {}", p.ctx()),
                _ => {
                    if p.s[p.i] == b'(' {
                        p.parens();
                    }
                }
            }
            let _ = save;
        }
        let t = self.ty(&mut p);
        let size = self.types.size(t);
        let mut out = vec![0u8; size as usize];
        if !ext {
            p.ws();
            // fast path for c"..." strings
            if p.s[p.i] == b'c' && p.s[p.i + 1] == b'"' {
                p.i += 1;
                let b = p.cstring();
                out[..b.len()].copy_from_slice(&b);
            } else {
                let v = self.constant(&mut p, t);
                self.write_const(t, &v, &mut out, 0);
            }
        }
        (out, ro)
    }
    fn write_const(&mut self, t: Ty, v: &V, out: &mut [u8], at: u64) {
        match v {
            V::I(x) => {
                let n = self.types.store_size(t);
                for k in 0..n.min(16) {
                    out[(at + k) as usize] = (x >> (8 * k)) as u8;
                }
            }
            V::A(vs) => {
                if let T::Vector(_, e) = *self.types.get(t) {
                    let sz = self.types.size(e);
                    for (k, x) in vs.iter().enumerate() {
                        self.write_const(e, x, out, at + k as u64 * sz);
                    }
                } else if let T::Array(_, e) = *self.types.get(t) {
                    let sz = self.types.size(e);
                    for (k, x) in vs.iter().enumerate() {
                        self.write_const(e, x, out, at + k as u64 * sz);
                    }
                } else {
                    let offs = self.types.offsets(t);
                    for (k, x) in vs.iter().enumerate() {
                        let ft = self.types.field(t, k as u64);
                        self.write_const(ft, x, out, at + offs[k]);
                    }
                }
            }
            V::S(_) => unreachable!(),
        }
    }

    pub fn func(&mut self, s: u32) -> Rc<Func> {
        if let Some(f) = self.funcs.get(&s) {
            return f.clone();
        }
        let SymKind::Func { start, end } = self.syms[s as usize].kind else {
            panic!("no body: {}", self.syms[s as usize].name)
        };
        let f = Rc::new(FnParser::new(self, s, start, end).parse());
        self.funcs.insert(s, f.clone());
        f
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if w == 0 {
        0
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    // word-at-a-time search
    s.iter().position(|x| *x == c)
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    // only the part before the first '"' or '{' matters for keywords
    let lim = h.len().min(200);
    h[..lim].windows(n.len()).position(|w| w == n)
}

pub struct P {
    pub s: &'static [u8],
    pub i: usize,
}
impl P {
    pub fn ctx(&self) -> String {
        let e = (self.i + 120).min(self.s.len());
        let b = self.i.saturating_sub(80);
        String::from_utf8_lossy(&self.s[b..e]).to_string()
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    pub fn lit(&mut self, l: &str) {
        if !self.s[self.i..].starts_with(l.as_bytes()) {
            panic!("expected '{l}' at: {}", self.ctx());
        }
        self.i += l.len();
    }
    pub fn peek_lit(&self, l: &str) -> bool {
        self.s[self.i..].starts_with(l.as_bytes())
    }
    pub fn word(&mut self) -> &'static str {
        let st = self.i;
        while matches!(self.s[self.i], b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.') {
            self.i += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    pub fn uint(&mut self) -> u128 {
        let st = self.i;
        while self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap_or_else(|_| panic!("int at {}", self.ctx()))
    }
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let b = self.cstring();
            String::from_utf8_lossy(&b).to_string()
        } else {
            let st = self.i;
            while matches!(self.s[self.i], b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'$' | b'-') {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    pub fn cstring(&mut self) -> Vec<u8> {
        assert!(self.s[self.i] == b'"');
        self.i += 1;
        let mut v = vec![];
        loop {
            let c = self.s[self.i];
            match c {
                b'"' => {
                    self.i += 1;
                    return v;
                }
                b'\\' => {
                    if self.s[self.i + 1] == b'\\' {
                        v.push(b'\\');
                        self.i += 2;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    }
                }
                _ => {
                    v.push(c);
                    self.i += 1;
                }
            }
        }
    }
    /// skip a balanced parenthesis group starting at '('
    pub fn parens(&mut self) {
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.cstring();
                    continue;
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type_start(&self) -> bool {
        match self.s[self.i] {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => self.s[self.i + 1].is_ascii_digit(),
            _ => {
                for w in ["void", "ptr", "float", "double", "half", "metadata"] {
                    if self.s[self.i..].starts_with(w.as_bytes()) {
                        let c = self.s[self.i + w.len()];
                        if !(c.is_ascii_alphanumeric() || c == b'_') {
                            return true;
                        }
                    }
                }
                false
            }
        }
    }
    /// skip attribute words until a type starts
    pub fn skip_to_type(&mut self) {
        loop {
            self.ws();
            if self.is_type_start() {
                return;
            }
            self.attr();
        }
    }
    fn attr(&mut self) {
        self.ws();
        match self.s[self.i] {
            b'"' => {
                self.cstring();
                if self.s[self.i] == b'=' {
                    self.i += 1;
                    self.cstring();
                }
            }
            b'(' => self.parens(),
            b'#' | b'-' => {
                self.i += 1;
                self.word();
            }
            b'0'..=b'9' => {
                self.word();
            }
            _ => {
                let w = self.word();
                if w.is_empty() {
                    panic!("attr at {}", self.ctx());
                }
                if self.s[self.i] == b'(' {
                    self.parens();
                }
            }
        }
    }
    fn is_value_start(&self) -> bool {
        match self.s[self.i] {
            b'%' | b'@' | b'-' | b'+' | b'0'..=b'9' | b'{' | b'[' | b'<' | b'!' => true,
            b'c' if self.s[self.i + 1] == b'"' => true,
            b'f' if self.s[self.i..].starts_with(b"f0x") => true,
            _ => {
                for w in [
                    "true", "false", "null", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "ptrtoint",
                    "inttoptr", "bitcast", "trunc", "addrspacecast", "ptrtoaddr", "add", "sub", "xor", "mul", "none",
                ] {
                    if self.s[self.i..].starts_with(w.as_bytes()) {
                        let c = self.s[self.i + w.len()];
                        if !(c.is_ascii_alphanumeric() || c == b'_') {
                            return true;
                        }
                    }
                }
                false
            }
        }
    }
    pub fn skip_to_value(&mut self) {
        loop {
            self.ws();
            // "align 8": number belongs to the attribute
            if self.s[self.i..].starts_with(b"align ") {
                self.i += 6;
                self.uint();
                continue;
            }
            if self.is_value_start() {
                return;
            }
            self.attr();
        }
    }
}

struct FnParser<'a> {
    m: &'a mut Module,
    p: P,
    end: usize,
    regs: HashMap<Vec<u8>, u32>,
    blocks: HashMap<Vec<u8>, u32>,
    sym: u32,
}

impl<'a> FnParser<'a> {
    fn new(m: &'a mut Module, sym: u32, start: usize, end: usize) -> Self {
        let p = P { s: m.src, i: start };
        FnParser { m, p, end, regs: HashMap::new(), blocks: HashMap::new(), sym }
    }
    fn reg(&mut self, n: Vec<u8>) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn regname(&mut self) -> u32 {
        self.p.lit("%");
        let n = self.p.name().into_bytes();
        self.reg(n)
    }
    fn label(&mut self) -> u32 {
        self.p.ws();
        self.p.lit("label");
        self.p.ws();
        self.p.lit("%");
        let n = self.p.name().into_bytes();
        self.block(&n)
    }
    fn block(&mut self, n: &[u8]) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_vec()).or_insert(k)
    }
    fn val(&mut self, t: Ty) -> Op {
        self.p.ws();
        if self.p.s[self.p.i] == b'%' {
            Op::R(self.regname())
        } else {
            Op::C(self.m.constant(&mut self.p, t))
        }
    }
    fn tyval(&mut self) -> (Ty, Op) {
        let t = self.m.ty(&mut self.p);
        let v = self.val(t);
        (t, v)
    }
    fn comma(&mut self) {
        self.p.ws();
        self.p.lit(",");
    }
    fn eat_words(&mut self, ws: &[&str]) {
        loop {
            self.p.ws();
            let save = self.p.i;
            let w = self.p.word();
            if !ws.contains(&w) {
                self.p.i = save;
                return;
            }
        }
    }
    fn vecinfo(&self, t: Ty) -> (u32, u32) {
        match self.m.types.get(t) {
            T::Vector(n, e) => (self.m.types.bits(*e), *n),
            _ => (self.m.types.bits(t), 0),
        }
    }

    fn parse(mut self) -> Func {
        // header
        self.p.lit("define");
        self.p.skip_to_type();
        let ret = self.m.ty(&mut self.p);
        self.p.ws();
        self.p.lit("@");
        self.p.name();
        self.p.lit("(");
        let mut args = vec![];
        let mut unnamed = 0u32;
        loop {
            self.p.ws();
            if self.p.s[self.p.i] == b')' {
                self.p.i += 1;
                break;
            }
            if self.p.s[self.p.i] == b',' {
                self.p.i += 1;
                continue;
            }
            if self.p.peek_lit("...") {
                self.p.i += 3;
                continue;
            }
            self.m.ty(&mut self.p);
            // attributes, then optional %name
            loop {
                self.p.ws();
                match self.p.s[self.p.i] {
                    b'%' => {
                        let save = self.p.i;
                        let r = self.regname();
                        if self.p.s[save + 1].is_ascii_digit() {
                            unnamed += 1;
                        }
                        args.push(r);
                        break;
                    }
                    b',' | b')' => {
                        let r = self.reg(unnamed.to_string().into_bytes());
                        unnamed += 1;
                        args.push(r);
                        break;
                    }
                    _ => self.p.attr(),
                }
            }
        }
        // to end of line
        while self.p.s[self.p.i] != b'\n' {
            self.p.i += 1;
        }
        self.p.i += 1;
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur = Block { phis: vec![], insts: vec![] };
        let mut cur_id: Option<u32> = None;
        while self.p.i < self.end {
            // one line
            let ls = self.p.i;
            let mut le = ls;
            while self.p.s[le] != b'\n' {
                le += 1;
            }
            let line = &self.p.s[ls..le];
            if line.is_empty() || line[0] == b';' {
                self.p.i = le + 1;
                continue;
            }
            if line[0] != b' ' {
                // label
                let name = if line[0] == b'"' { self.p.name() } else { self.p.name() };
                if let Some(id) = cur_id {
                    blocks.push((id, std::mem::replace(&mut cur, Block { phis: vec![], insts: vec![] })));
                }
                cur_id = Some(self.block(name.as_bytes()));
                self.p.i = le + 1;
                continue;
            }
            if cur_id.is_none() {
                let n = unnamed.to_string();
                cur_id = Some(self.block(n.as_bytes()));
            }
            self.p.ws();
            if self.p.s[self.p.i] == b';' || self.p.s[self.p.i] == b'#' {
                self.p.i = le + 1;
                continue;
            }
            let r = self.inst(&mut cur);
            match r {
                Some(i) => {
                    cur.insts.push(i);
                }
                None => {}
            }
            // skip to end of line (multi-line constructs leave p after them)
            while self.p.s[self.p.i] != b'\n' {
                if self.p.s[self.p.i] == b'"' {
                    self.p.cstring();
                } else {
                    self.p.i += 1;
                }
            }
            self.p.i += 1;
        }
        if let Some(id) = cur_id {
            blocks.push((id, cur));
        }
        let nb = self.blocks.len();
        // entry block first in file order must be index 0: remap
        let mut order: Vec<Option<Block>> = (0..nb).map(|_| None).collect();
        let entry = blocks[0].0;
        for (id, b) in blocks {
            order[id as usize] = Some(b);
        }
        let mut bl: Vec<Block> = order
            .into_iter()
            .map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![I::Unreachable] }))
            .collect();
        // a pseudo block at the end if the entry is not 0: prepend a jump by swapping is messy; keep the index
        if entry != 0 {
            // swap indices entry<->0 everywhere
            bl.swap(0, entry as usize);
            let sw = |x: &mut u32| {
                if *x == 0 {
                    *x = entry
                } else if *x == entry {
                    *x = 0
                }
            };
            for b in &mut bl {
                for (_, inc) in &mut b.phis {
                    for (k, _) in inc {
                        sw(k);
                    }
                }
                for i in &mut b.insts {
                    match i {
                        I::Br(t) => sw(t),
                        I::CondBr { t, f, .. } => {
                            sw(t);
                            sw(f);
                        }
                        I::Switch { def, cases, map, .. } => {
                            sw(def);
                            for (_, t) in cases.iter_mut() {
                                sw(t);
                            }
                            if let Some(m) = map {
                                for t in m.values_mut() {
                                    sw(t);
                                }
                            }
                        }
                        I::Call { normal: Some(n), .. } => sw(n),
                        _ => {}
                    }
                }
            }
        }
        Func { sym: self.sym, nregs: self.regs.len() as u32, args, blocks: bl, ret }
    }

    fn inst(&mut self, cur: &mut Block) -> Option<I> {
        let mut dst: Option<u32> = None;
        if self.p.s[self.p.i] == b'%' {
            dst = Some(self.regname());
            self.p.ws();
            self.p.lit("=");
            self.p.ws();
        }
        let op = self.p.word();
        let d = dst.unwrap_or(0);
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.eat_words(&["nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
            let (t, x) = self.tyval();
            self.comma();
            let y = self.val(t);
            let (w, n) = self.vecinfo(t);
            return Some(I::Bin { op: b, w, n, dst: d, a: x, b: y });
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "bitcast" => Some(Cast::Bitcast),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            _ => None,
        };
        if let Some(k) = cast {
            self.eat_words(&["nuw", "nsw", "nneg", "fast", "nnan", "ninf", "nsz", "contract"]);
            let (from, a) = self.tyval();
            self.p.ws();
            self.p.lit("to");
            let to = self.m.ty(&mut self.p);
            return Some(I::Cast { k, from, to, dst: d, a });
        }
        match op {
            "icmp" => {
                self.eat_words(&["samesign"]);
                self.p.ws();
                let p = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    o => panic!("icmp {o}"),
                };
                let (t, a) = self.tyval();
                self.comma();
                let b = self.val(t);
                let (w, n) = self.vecinfo(t);
                Some(I::Icmp { p, w, n, dst: d, a, b })
            }
            "fcmp" => {
                self.eat_words(&["fast", "nnan", "ninf", "nsz", "contract"]);
                self.p.ws();
                // bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
                let p = match self.p.word() {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    "true" => 15,
                    o => panic!("fcmp {o}"),
                };
                let (t, a) = self.tyval();
                self.comma();
                let b = self.val(t);
                let (w, n) = self.vecinfo(t);
                Some(I::Fcmp { p, w, n, dst: d, a, b })
            }
            "fneg" => {
                self.eat_words(&["fast", "nnan", "ninf", "nsz", "contract"]);
                let (t, a) = self.tyval();
                let (w, n) = self.vecinfo(t);
                Some(I::Fneg { w, n, dst: d, a })
            }
            "load" => {
                self.eat_words(&["atomic", "volatile"]);
                let ty = self.m.ty(&mut self.p);
                self.comma();
                let (_, p) = self.tyval();
                Some(I::Load { ty, dst: d, p })
            }
            "store" => {
                self.eat_words(&["atomic", "volatile"]);
                let (ty, v) = self.tyval();
                self.comma();
                let (_, p) = self.tyval();
                Some(I::Store { ty, v, p })
            }
            "getelementptr" => {
                self.eat_words(&["inbounds", "nuw", "nusw", "nsw"]);
                let mut cur_t = self.m.ty(&mut self.p);
                self.comma();
                let (bt, base) = self.tyval();
                if matches!(self.m.types.get(bt), T::Vector(..)) {
                    return Some(I::Bad("vector gep".into()));
                }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut first = true;
                loop {
                    self.p.ws();
                    if self.p.s[self.p.i] != b',' {
                        break;
                    }
                    self.p.i += 1;
                    self.p.ws();
                    if self.p.s[self.p.i] == b'!' {
                        break;
                    }
                    let (it, iv) = self.tyval();
                    let w = self.m.types.bits(it);
                    let scale;
                    if first {
                        scale = self.m.types.size(cur_t);
                        first = false;
                    } else if let T::Struct(..) = self.m.types.get(cur_t) {
                        let Op::C(V::I(k)) = iv else { panic!("struct gep") };
                        off = off.wrapping_add(self.m.types.offsets(cur_t)[k as usize]);
                        cur_t = self.m.types.field(cur_t, k as u64);
                        continue;
                    } else {
                        cur_t = self.m.types.field(cur_t, 0);
                        scale = self.m.types.size(cur_t);
                    }
                    match iv {
                        Op::C(V::I(k)) => off = off.wrapping_add((sext(k, w) as i64 as u64).wrapping_mul(scale)),
                        o => idx.push((o, scale, w)),
                    }
                }
                Some(I::Gep { dst: d, base, off, idx: idx.into_boxed_slice() })
            }
            "select" => {
                self.eat_words(&["fast", "nnan", "ninf", "nsz", "contract"]);
                let (ct, c) = self.tyval();
                let vec = matches!(self.m.types.get(ct), T::Vector(..));
                self.comma();
                let (t, a) = self.tyval();
                self.comma();
                let (_, b) = self.tyval();
                Some(I::Select { ty: t, vec, dst: d, c, a, b })
            }
            "phi" => {
                self.eat_words(&["fast", "nnan", "ninf", "nsz", "contract"]);
                let t = self.m.ty(&mut self.p);
                let mut inc = vec![];
                loop {
                    self.p.ws();
                    if self.p.s[self.p.i] == b',' {
                        self.p.i += 1;
                        self.p.ws();
                    }
                    if self.p.s[self.p.i] != b'[' {
                        break;
                    }
                    self.p.i += 1;
                    let v = self.val(t);
                    self.comma();
                    self.p.ws();
                    self.p.lit("%");
                    let n = self.p.name().into_bytes();
                    let b = self.block(&n);
                    self.p.ws();
                    self.p.lit("]");
                    inc.push((b, v));
                }
                cur.phis.push((d, inc));
                None
            }
            "extractvalue" => {
                let (_, a) = self.tyval();
                let mut path = vec![];
                loop {
                    self.p.ws();
                    if self.p.s[self.p.i] != b',' {
                        break;
                    }
                    self.p.i += 1;
                    self.p.ws();
                    if self.p.s[self.p.i] == b'!' {
                        break;
                    }
                    path.push(self.p.uint() as u32);
                }
                Some(I::ExtractValue { dst: d, a, path: path.into() })
            }
            "insertvalue" => {
                let (ty, a) = self.tyval();
                self.comma();
                let (_, v) = self.tyval();
                let mut path = vec![];
                loop {
                    self.p.ws();
                    if self.p.s[self.p.i] != b',' {
                        break;
                    }
                    self.p.i += 1;
                    self.p.ws();
                    if self.p.s[self.p.i] == b'!' {
                        break;
                    }
                    path.push(self.p.uint() as u32);
                }
                Some(I::InsertValue { ty, dst: d, a, v, path: path.into() })
            }
            "extractelement" => {
                let (ty, a) = self.tyval();
                self.comma();
                let (_, i) = self.tyval();
                Some(I::ExtractElement { ty, dst: d, a, i })
            }
            "insertelement" => {
                let (ty, a) = self.tyval();
                self.comma();
                let (_, v) = self.tyval();
                self.comma();
                let (_, i) = self.tyval();
                Some(I::InsertElement { ty, dst: d, a, v, i })
            }
            "shufflevector" => {
                let (ty, a) = self.tyval();
                self.comma();
                let (_, b) = self.tyval();
                self.comma();
                let (_, m) = self.tyval();
                let mut mask = vec![];
                if let Op::C(V::A(vs)) = m {
                    for x in vs.iter() {
                        if let V::I(k) = x {
                            mask.push(*k as i32);
                        }
                    }
                }
                Some(I::Shuffle { dst: d, ty, a, b, mask: mask.into() })
            }
            "alloca" => {
                self.eat_words(&["inalloca"]);
                let t = self.m.ty(&mut self.p);
                let size = self.m.types.size(t);
                self.p.ws();
                let mut n = Op::C(V::I(1));
                if self.p.s[self.p.i] == b',' {
                    let save = self.p.i;
                    self.p.i += 1;
                    self.p.ws();
                    if self.p.is_type_start() {
                        n = self.tyval().1;
                    } else {
                        self.p.i = save;
                    }
                }
                Some(I::Alloca { dst: d, size, n })
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let is_invoke = op == "invoke";
                if op != "call" && !is_invoke {
                    self.p.ws();
                    self.p.lit("call");
                }
                self.p.skip_to_type();
                let mut ret = self.m.ty(&mut self.p);
                self.p.ws();
                // function type form: "void (ptr, ...) @f(...)"
                if self.p.s[self.p.i] == b'(' {
                    self.p.parens();
                    self.p.ws();
                }
                let callee;
                match self.p.s[self.p.i] {
                    b'@' => {
                        self.p.i += 1;
                        let n = self.p.name();
                        if n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.experimental.noalias")
                            || n == "llvm.assume"
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.invariant")
                            || n.starts_with("llvm.x86.sse2.pause")
                            || n.starts_with("llvm.prefetch")
                            || n == "llvm.donothing"
                        {
                            return Some(I::Nop);
                        }
                        let s = self.m.resolve(&n).unwrap_or_else(|| panic!("call of unknown {n}"));
                        callee = Callee::Sym(s);
                    }
                    b'%' => callee = Callee::Op(Op::R(self.regname())),
                    b'a' if self.p.peek_lit("asm") => {
                        self.p.word();
                        // a template that is only a comment hands its operands through ("=&r,0")
                        let mut strings = vec![];
                        loop {
                            self.p.ws();
                            match self.p.s[self.p.i] {
                                b'"' => {
                                    strings.push(self.p.cstring());
                                }
                                b',' => self.p.i += 1,
                                b'(' => break,
                                _ => {
                                    self.p.word();
                                }
                            }
                        }
                        let pass = strings.len() == 2
                            && strings[0].starts_with(b"/*")
                            && strings[0].ends_with(b"*/")
                            && strings[1].starts_with(b"=");
                        callee = Callee::Asm(pass);
                    }
                    _ => {
                        let pt = self.m.types.mk(T::Ptr);
                        callee = Callee::Op(Op::C(self.m.constant(&mut self.p, pt)));
                    }
                }
                self.p.ws();
                self.p.lit("(");
                let mut args = vec![];
                loop {
                    self.p.ws();
                    match self.p.s[self.p.i] {
                        b')' => {
                            self.p.i += 1;
                            break;
                        }
                        b',' => {
                            self.p.i += 1;
                            continue;
                        }
                        _ => {}
                    }
                    if self.p.peek_lit("metadata") {
                        // metadata argument: skip
                        while !matches!(self.p.s[self.p.i], b',' | b')') {
                            if self.p.s[self.p.i] == b'"' {
                                self.p.cstring();
                            } else {
                                self.p.i += 1;
                            }
                        }
                        continue;
                    }
                    let t = self.m.ty(&mut self.p);
                    self.p.skip_to_value();
                    let v = self.val(t);
                    args.push((v, t));
                }
                let mut normal = None;
                if is_invoke {
                    // [attrs] \n to label %x unwind label %y
                    loop {
                        while matches!(self.p.s[self.p.i], b' ' | b'\n' | b'\t') {
                            self.p.i += 1;
                        }
                        if self.p.peek_lit("to label") {
                            self.p.i += 3;
                            normal = Some(self.label());
                            break;
                        }
                        if self.p.s[self.p.i] == b'[' {
                            self.p.parens();
                        } else {
                            self.p.attr();
                        }
                    }
                }
                if let T::Other(_) = self.m.types.get(ret) {
                    ret = 0;
                }
                Some(I::Call { dst, callee, args: args.into(), ret, normal })
            }
            "freeze" => {
                let (_, a) = self.tyval();
                Some(I::Copy { dst: d, a })
            }
            "br" => {
                self.p.ws();
                if self.p.peek_lit("label") {
                    let l = self.label();
                    return Some(I::Br(l));
                }
                let (_, c) = self.tyval();
                self.comma();
                let t = self.label();
                self.comma();
                let f = self.label();
                Some(I::CondBr { c, t, f })
            }
            "switch" => {
                let (t, v) = self.tyval();
                let w = self.m.types.bits(t);
                self.comma();
                let def = self.label();
                self.p.ws();
                self.p.lit("[");
                let mut cases = vec![];
                loop {
                    while matches!(self.p.s[self.p.i], b' ' | b'\n' | b'\t') {
                        self.p.i += 1;
                    }
                    if self.p.s[self.p.i] == b']' {
                        self.p.i += 1;
                        break;
                    }
                    let (_, c) = self.tyval();
                    let Op::C(V::I(k)) = c else { panic!("switch case") };
                    self.comma();
                    let l = self.label();
                    cases.push((k, l));
                }
                let map = if cases.len() > 8 { Some(Box::new(cases.iter().cloned().collect())) } else { None };
                Some(I::Switch { w, v, def, cases: cases.into(), map })
            }
            "ret" => {
                self.p.ws();
                if self.p.peek_lit("void") {
                    return Some(I::Ret(None));
                }
                let (_, v) = self.tyval();
                Some(I::Ret(Some(v)))
            }
            "unreachable" => Some(I::Unreachable),
            "fence" => Some(I::Nop),
            "atomicrmw" => {
                self.eat_words(&["volatile"]);
                self.p.ws();
                let op = self.p.word().to_string();
                let (_, p) = self.tyval();
                self.comma();
                let (ty, v) = self.tyval();
                Some(I::AtomicRmw { op, ty, dst: d, p, v })
            }
            "cmpxchg" => {
                self.eat_words(&["weak", "volatile"]);
                let (_, p) = self.tyval();
                self.comma();
                let (ty, old) = self.tyval();
                self.comma();
                let (_, new) = self.tyval();
                Some(I::CmpXchg { ty, dst: d, p, old, new })
            }
            "landingpad" => {
                // skip clause lines: they start with several blanks and cleanup/catch/filter
                loop {
                    let mut e = self.p.i;
                    while self.p.s[e] != b'\n' {
                        e += 1;
                    }
                    let rest = &self.p.s[e + 1..e + 60.min(self.p.s.len() - e - 1)];
                    let tr: Vec<u8> = rest.iter().cloned().skip_while(|c| *c == b' ').take(8).collect();
                    if tr.starts_with(b"cleanup") || tr.starts_with(b"catch") || tr.starts_with(b"filter") {
                        self.p.i = e + 1;
                    } else {
                        break;
                    }
                }
                Some(I::Bad("landingpad".into()))
            }
            "resume" => Some(I::Bad("resume".into())),
            o => Some(I::Bad(o.to_string())),
        }
    }
}
