//! Parser for the textual LLVM IR that clang emits from /repo's current headers.
//! Anything not understood is a hard parse error naming the construct (never silently skipped).
use crate::term::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    F80,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Named(usize),
    Label,
    Token,
    Meta,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u32, u128),
    Null,
    Undef(Ty),
    F64(f64),
    F32(f32),
    Zero(Ty),
    Global(usize, i128),
    Func(usize),
    Agg(Ty, Vec<Cst>),
    Bytes(Vec<u8>),
    PtrToInt(Box<Cst>, u32),
    IntToPtr(Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt, SExt, Trunc, BitCast, PtrToInt, IntToPtr, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}

#[derive(Clone, Debug)]
pub enum GepStep {
    Const(i128),
    Scaled(Op, Ty, i128), // index operand, its type, stride
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { ty: Ty, size: u64, count: Option<Op> },
    Load { ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Gep { base: Op, steps: Vec<GepStep>, inbounds: bool },
    Bin { op: Bin, ty: Ty, a: Op, b: Op, nuw: bool, nsw: bool, exact: bool },
    FNeg { a: Op },
    ICmp { pred: Pred, ty: Ty, a: Op, b: Op },
    FCmp { pred: String, a: Op, b: Op },
    Select { c: Op, a: Op, b: Op },
    Phi { ty: Ty, inc: Vec<(Op, usize)> },
    Cast { op: Cast, from: Ty, a: Op, to: Ty },
    ExtractValue { agg: Op, idx: Vec<usize> },
    InsertValue { aty: Ty, agg: Op, val: Op, idx: Vec<usize> },
    Freeze { a: Op },
    Call { callee: Callee, args: Vec<(Op, Ty, Option<u64>)>, ret: Ty, normal: Option<usize>, unwind: Option<usize>, noreturn: bool },
    LandingPad { cleanup: bool, catches: Vec<Option<String>>, filter: bool }, // None: catch all
    Br { t: usize },
    CondBr { c: Op, t: usize, f: usize },
    Switch { ty: Ty, v: Op, def: usize, cases: Vec<(u128, usize)> },
    Ret { v: Option<Op> },
    Unreachable,
    Resume,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    pub line: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
    pub loop_header: bool,
    pub ipdom: Option<usize>, // immediate post-dominator (ret-reaching CFG), None = function exit
    pub doomed: bool,         // cannot reach a return
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub decl: bool,
    pub params: Vec<u32>,
    pub byval: Vec<Option<u64>>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub noreturn: bool,
    pub ninsts: usize,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub size: u64,
}

pub struct Module {
    pub types: Vec<Ty>,
    pub tnames: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gnames: HashMap<String, usize>,
    pub funcs: Vec<Func>,
    pub fnames: HashMap<String, usize>,
    pub csts: Vec<Cst>,
    pub big: bool,
    pub ptr_bits: u32,
    pub i64_align: u64,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Loc(String),  // %x
    Glob(String), // @x
    Word(String),
    Str(Vec<u8>),
    P(char),
    Ell,
    Meta(String),
    Attr,
    Comdat,
}

fn lex(s: &str) -> Result<Vec<T>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
            }
            b'"' => {
                let mut v = Vec::new();
                i += 1;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(b'\\');
                            i += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).map_err(|e| e.to_string())?);
                            i += 3;
                        }
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(T::Str(v));
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(T::Ell);
                i += 3;
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::Meta(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::Attr);
            }
            b'$' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                }
                out.push(T::Comdat);
            }
            b'(' | b')' | b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b',' | b'=' | b'*' | b':' | b'|' => {
                out.push(T::P(c as char));
                i += 1;
            }
            _ if idc(c) || c == b'+' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                out.push(T::Word(s[st..i].to_string()));
            }
            _ => return Err(format!("lex: unexpected char {:?} in {}", c as char, s)),
        }
    }
    Ok(out)
}

struct P<'a> {
    t: &'a [T],
    i: usize,
    m: &'a mut Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, usize>,
    src: &'a str,
}

type R<X> = Result<X, String>;

impl Module {
    pub fn size_of(&self, t: &Ty) -> u64 {
        match t {
            Ty::Void | Ty::Label | Ty::Token | Ty::Meta | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align_of(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr => (self.ptr_bits / 8) as u64,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::F80 => 16,
            Ty::Arr(n, e) => n * self.size_of(e),
            Ty::Named(i) => {
                let t = self.types[*i].clone();
                self.size_of(&t)
            }
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut ma = 1;
                for x in f {
                    let a = if *packed { 1 } else { self.align_of(x) };
                    ma = ma.max(a);
                    o = (o + a - 1) / a * a + self.size_of(x);
                }
                (o + ma - 1) / ma * ma
            }
        }
    }
    /// number of bytes a load/store of this type touches
    pub fn store_size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size_of(t),
        }
    }
    pub fn align_of(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => self.i64_align,
                _ => 16,
            },
            Ty::Ptr => (self.ptr_bits / 8) as u64,
            Ty::F32 => 4,
            Ty::F64 => self.i64_align,
            Ty::F80 => 16,
            Ty::Arr(_, e) => self.align_of(e),
            Ty::Named(i) => {
                let t = self.types[*i].clone();
                self.align_of(&t)
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align_of(x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn resolve<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        let mut t = t;
        while let Ty::Named(i) = t {
            t = &self.types[*i];
        }
        t
    }
    pub fn field_off(&self, f: &[Ty], packed: bool, k: usize) -> u64 {
        let mut o = 0u64;
        for (i, x) in f.iter().enumerate() {
            let a = if packed { 1 } else { self.align_of(x) };
            o = (o + a - 1) / a * a;
            if i == k {
                return o;
            }
            o += self.size_of(x);
        }
        o
    }
    fn cst(&mut self, c: Cst) -> usize {
        self.csts.push(c);
        self.csts.len() - 1
    }
    fn func_id(&mut self, n: &str) -> usize {
        let n = self.aliases.get(n).cloned().unwrap_or(n.to_string());
        if let Some(i) = self.fnames.get(&n) {
            return *i;
        }
        let i = self.funcs.len();
        self.funcs.push(Func { name: n.clone(), decl: true, ..Default::default() });
        self.fnames.insert(n, i);
        i
    }
}

const SKIP: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext", "returned", "immarg",
    "dead_on_unwind", "writable", "inreg", "nofree", "nest", "swiftself", "allocptr", "noext",
];

impl<'a> P<'a> {
    fn err<X>(&self, s: &str) -> R<X> {
        Err(format!("IR parse: {} near token {:?} in: {}", s, self.t.get(self.i), self.src))
    }
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T> {
        let x = self.t.get(self.i).cloned();
        self.i += 1;
        match x {
            Some(x) => Ok(x),
            None => self.err("unexpected end"),
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Word(x)) if x == w)
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn acc(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn accp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.accp(c) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", c))
        }
    }
    fn expw(&mut self, w: &str) -> R<()> {
        if self.acc(w) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", w))
        }
    }
    fn word(&mut self) -> R<String> {
        match self.next()? {
            T::Word(w) => Ok(w),
            _ => {
                self.i -= 1;
                self.err("expected word")
            }
        }
    }
    fn num(&mut self) -> R<i128> {
        let w = self.word()?;
        w.parse::<i128>().map_err(|e| format!("{} {:?} in {}", e, w, self.src))
    }
    fn ty0(&mut self) -> R<Ty> {
        let t = self.next()?;
        Ok(match t {
            T::Word(w) => {
                if w == "ptr" {
                    Ty::Ptr
                } else if w == "void" {
                    Ty::Void
                } else if w == "float" {
                    Ty::F32
                } else if w == "double" {
                    Ty::F64
                } else if w == "x86_fp80" || w == "fp128" {
                    Ty::F80
                } else if w == "label" {
                    Ty::Label
                } else if w == "token" {
                    Ty::Token
                } else if w == "metadata" {
                    Ty::Meta
                } else if w == "opaque" {
                    Ty::Opaque
                } else if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    self.i -= 1;
                    return self.err("unknown type");
                }
            }
            T::Loc(n) => match self.m.tnames.get(&n) {
                Some(i) => Ty::Named(*i),
                None => {
                    let i = self.m.types.len();
                    self.m.types.push(Ty::Opaque);
                    self.m.tnames.insert(n, i);
                    Ty::Named(i)
                }
            },
            T::P('[') => {
                let n = self.num()? as u64;
                self.expw("x")?;
                let e = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n, Box::new(e))
            }
            T::P('{') => {
                let mut f = vec![];
                if !self.accp('}') {
                    loop {
                        f.push(self.ty()?);
                        if !self.accp(',') {
                            break;
                        }
                    }
                    self.exp('}')?;
                }
                Ty::Struct(f, false)
            }
            T::P('<') => {
                if self.accp('{') {
                    let mut f = vec![];
                    if !self.accp('}') {
                        loop {
                            f.push(self.ty()?);
                            if !self.accp(',') {
                                break;
                            }
                        }
                        self.exp('}')?;
                    }
                    self.exp('>')?;
                    Ty::Struct(f, true)
                } else {
                    return self.err("vector type unsupported");
                }
            }
            _ => {
                self.i -= 1;
                return self.err("type expected");
            }
        })
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.ty0()?;
        // function type: `ret (args...)` — used in calls to varargs; skip the signature
        if self.isp('(') {
            let mut d = 0;
            loop {
                match self.next()? {
                    T::P('(') => d += 1,
                    T::P(')') => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(t)
    }
    /// skip parameter attributes; returns byval size if present
    fn pattrs(&mut self) -> R<Option<u64>> {
        let mut bv = None;
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    let w = w.clone();
                    if SKIP.contains(&w.as_str()) {
                        self.i += 1;
                    } else if w == "align" {
                        self.i += 1;
                        if self.accp('(') {
                            self.num()?;
                            self.exp(')')?;
                        } else {
                            self.num()?;
                        }
                    } else if w == "dereferenceable" || w == "dereferenceable_or_null" || w == "allocalign" || w == "range" || w == "nofpclass" {
                        self.i += 1;
                        if self.accp('(') {
                            while !self.accp(')') {
                                self.i += 1;
                            }
                        }
                    } else if w == "sret" || w == "byval" || w == "elementtype" || w == "byref" {
                        self.i += 1;
                        self.exp('(')?;
                        let t = self.ty()?;
                        self.exp(')')?;
                        if w == "byval" {
                            bv = Some(self.m.size_of(&t));
                        }
                        if w == "byref" {
                            return self.err("byref");
                        }
                    } else {
                        break;
                    }
                }
                Some(T::Attr) => self.i += 1,
                _ => break,
            }
        }
        Ok(bv)
    }
    fn cst_val(&mut self, t: &Ty) -> R<Cst> {
        let tk = self.next()?;
        Ok(match tk {
            T::Word(w) => match w.as_str() {
                "null" => Cst::Null,
                "undef" | "poison" => Cst::Undef(t.clone()),
                "zeroinitializer" => Cst::Zero(t.clone()),
                "true" => Cst::Int(1, 1),
                "false" => Cst::Int(1, 0),
                "none" => Cst::Undef(t.clone()),
                "c" => match self.next()? {
                    T::Str(b) => Cst::Bytes(b),
                    _ => return self.err("c string"),
                },
                "getelementptr" => {
                    self.acc("inbounds");
                    if self.acc("inrange") {
                        return self.err("inrange");
                    }
                    self.exp('(')?;
                    let et = self.ty()?;
                    self.exp(',')?;
                    let pt = self.ty()?;
                    let base = self.cst_val(&pt)?;
                    let mut off: i128 = 0;
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.accp(',') {
                        self.acc("inrange");
                        let it = self.ty()?;
                        let iv = match self.cst_val(&it)? {
                            Cst::Int(w, v) => sext(v, w),
                            _ => return self.err("gep const index"),
                        };
                        if first {
                            off += iv * self.m.size_of(&et) as i128;
                            first = false;
                        } else {
                            let c2 = self.m.resolve(&cur).clone();
                            match c2 {
                                Ty::Arr(_, e) => {
                                    off += iv * self.m.size_of(&e) as i128;
                                    cur = *e;
                                }
                                Ty::Struct(f, p) => {
                                    off += self.m.field_off(&f, p, iv as usize) as i128;
                                    cur = f[iv as usize].clone();
                                }
                                _ => return self.err("gep const"),
                            }
                        }
                    }
                    self.exp(')')?;
                    match base {
                        Cst::Global(g, o) => Cst::Global(g, o + off),
                        _ => return self.err("gep const base"),
                    }
                }
                "ptrtoint" | "inttoptr" => {
                    self.exp('(')?;
                    let ft = self.ty()?;
                    let v = self.cst_val(&ft)?;
                    self.expw("to")?;
                    let tt = self.ty()?;
                    self.exp(')')?;
                    if w == "inttoptr" {
                        Cst::IntToPtr(Box::new(v))
                    } else if let Ty::Int(n) = tt {
                        Cst::PtrToInt(Box::new(v), n)
                    } else {
                        return self.err("ptrtoint");
                    }
                }
                _ => match t {
                    Ty::Int(n) => {
                        if let Ok(v) = w.parse::<i128>() {
                            Cst::Int(*n, mask(v as u128, *n))
                        } else if let Ok(v) = w.parse::<u128>() {
                            Cst::Int(*n, mask(v, *n))
                        } else {
                            self.i -= 1;
                            return self.err("int const");
                        }
                    }
                    Ty::F64 | Ty::F32 => {
                        let v = if let Some(h) = w.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                        } else {
                            w.parse::<f64>().map_err(|e| e.to_string())?
                        };
                        if *t == Ty::F64 {
                            Cst::F64(v)
                        } else {
                            Cst::F32(v as f32)
                        }
                    }
                    Ty::F80 => Cst::Undef(Ty::F80),
                    _ => {
                        self.i -= 1;
                        return self.err("const");
                    }
                },
            },
            T::Glob(g) => {
                let g2 = self.m.aliases.get(&g).cloned().unwrap_or(g.clone());
                if let Some(i) = self.m.gnames.get(&g2) {
                    Cst::Global(*i, 0)
                } else {
                    Cst::Func(self.m.func_id(&g2))
                }
            }
            T::P('[') => {
                let mut v = vec![];
                if !self.accp(']') {
                    loop {
                        let et = self.ty()?;
                        v.push(self.cst_val(&et)?);
                        if !self.accp(',') {
                            break;
                        }
                    }
                    self.exp(']')?;
                }
                Cst::Agg(t.clone(), v)
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.accp('}') {
                    loop {
                        let et = self.ty()?;
                        v.push(self.cst_val(&et)?);
                        if !self.accp(',') {
                            break;
                        }
                    }
                    self.exp('}')?;
                }
                Cst::Agg(t.clone(), v)
            }
            T::P('<') => {
                self.exp('{')?;
                let mut v = vec![];
                loop {
                    let et = self.ty()?;
                    v.push(self.cst_val(&et)?);
                    if !self.accp(',') {
                        break;
                    }
                }
                self.exp('}')?;
                self.exp('>')?;
                Cst::Agg(t.clone(), v)
            }
            _ => {
                self.i -= 1;
                return self.err("constant expected");
            }
        })
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn val(&mut self, t: &Ty) -> R<Op> {
        if let Some(T::Loc(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Op::R(self.reg(&n)));
        }
        let c = self.cst_val(t)?;
        Ok(Op::C(self.m.cst(c)))
    }
    fn tyval(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.pattrs()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn block(&mut self, n: &str) -> usize {
        let l = self.blocks.len();
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self) -> R<usize> {
        self.expw("label")?;
        match self.next()? {
            T::Loc(n) => Ok(self.block(&n)),
            _ => self.err("label"),
        }
    }
    fn gep_steps(&mut self, et: Ty) -> R<Vec<GepStep>> {
        let mut steps = vec![];
        let mut cur = et.clone();
        let mut first = true;
        while self.accp(',') {
            if matches!(self.peek(), Some(T::Meta(_))) {
                break;
            }
            let (it, iv) = self.tyval()?;
            let ci = match &iv {
                Op::C(c) => match &self.m.csts[*c] {
                    Cst::Int(w, v) => Some(sext(*v, *w)),
                    _ => return self.err("gep idx"),
                },
                _ => None,
            };
            if first {
                let s = self.m.size_of(&et) as i128;
                match ci {
                    Some(c) => steps.push(GepStep::Const(c * s)),
                    None => steps.push(GepStep::Scaled(iv, it, s)),
                }
                first = false;
            } else {
                let c2 = self.m.resolve(&cur).clone();
                match c2 {
                    Ty::Arr(_, e) => {
                        let s = self.m.size_of(&e) as i128;
                        match ci {
                            Some(c) => steps.push(GepStep::Const(c * s)),
                            None => steps.push(GepStep::Scaled(iv, it, s)),
                        }
                        cur = *e;
                    }
                    Ty::Struct(f, p) => {
                        let k = ci.ok_or("struct gep with variable index")? as usize;
                        steps.push(GepStep::Const(self.m.field_off(&f, p, k) as i128));
                        cur = f[k].clone();
                    }
                    _ => return self.err("gep type"),
                }
            }
        }
        Ok(steps)
    }
    fn call(&mut self, invoke: bool) -> R<I> {
        // [fastmath] [cc] [ret attrs] ty fnptrval(args) [attrs]
        loop {
            if self.acc("fastcc") || self.acc("ccc") {
                continue;
            }
            break;
        }
        self.pattrs()?;
        let ret = self.ty()?;
        let callee = match self.next()? {
            T::Glob(n) => Callee::Func(self.m.func_id(&n)),
            T::Loc(n) => Callee::Ind(Op::R(self.reg(&n))),
            T::Word(w) if w == "asm" => return self.err("inline asm unsupported"),
            _ => {
                self.i -= 1;
                return self.err("callee");
            }
        };
        self.exp('(')?;
        let mut args = vec![];
        if !self.accp(')') {
            loop {
                let t = self.ty()?;
                let bv = self.pattrs()?;
                if t == Ty::Meta {
                    // metadata argument: skip to , or )
                    while !self.isp(',') && !self.isp(')') {
                        self.i += 1;
                    }
                } else {
                    let v = self.val(&t)?;
                    args.push((v, t, bv));
                }
                if !self.accp(',') {
                    break;
                }
            }
            self.exp(')')?;
        }
        let mut normal = None;
        let mut unwind = None;
        if invoke {
            while !self.isw("to") {
                self.i += 1;
                if self.i >= self.t.len() {
                    return self.err("invoke");
                }
            }
            self.expw("to")?;
            normal = Some(self.label()?);
            self.expw("unwind")?;
            unwind = Some(self.label()?);
        }
        Ok(I::Call { callee, args, ret, normal, unwind, noreturn: false })
    }
    fn inst(&mut self) -> R<Inst> {
        let mut dst = None;
        if let Some(T::Loc(n)) = self.peek() {
            let n = n.clone();
            if self.t.get(self.i + 1) == Some(&T::P('=')) {
                self.i += 2;
                dst = Some(self.reg(&n));
            }
        }
        let w = self.word()?;
        let binop = |w: &str| -> Option<Bin> {
            Some(match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => return None,
            })
        };
        let castop = |w: &str| -> Option<Cast> {
            Some(match w {
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "trunc" => Cast::Trunc,
                "bitcast" => Cast::BitCast,
                "ptrtoint" => Cast::PtrToInt,
                "inttoptr" => Cast::IntToPtr,
                "uitofp" => Cast::UIToFP,
                "sitofp" => Cast::SIToFP,
                "fptoui" => Cast::FPToUI,
                "fptosi" => Cast::FPToSI,
                "fpext" => Cast::FPExt,
                "fptrunc" => Cast::FPTrunc,
                _ => return None,
            })
        };
        let i = if let Some(op) = binop(&w) {
            let (mut nuw, mut nsw, mut exact) = (false, false, false);
            loop {
                if self.acc("nuw") {
                    nuw = true
                } else if self.acc("nsw") {
                    nsw = true
                } else if self.acc("exact") {
                    exact = true
                } else if self.acc("disjoint") {
                } else if self.acc("fast") || self.acc("reassoc") || self.acc("nnan") || self.acc("ninf") || self.acc("nsz") || self.acc("arcp") || self.acc("contract") || self.acc("afn") {
                } else {
                    break;
                }
            }
            let ty = self.ty()?;
            let a = self.val(&ty)?;
            self.exp(',')?;
            let b = self.val(&ty)?;
            I::Bin { op, ty, a, b, nuw, nsw, exact }
        } else if let Some(op) = castop(&w) {
            self.acc("nneg");
            let from = self.ty()?;
            let a = self.val(&from)?;
            self.expw("to")?;
            let to = self.ty()?;
            I::Cast { op, from, a, to }
        } else {
            match w.as_str() {
                "alloca" => {
                    self.acc("inalloca");
                    let ty = self.ty()?;
                    let mut count = None;
                    while self.accp(',') {
                        if self.acc("align") {
                            self.num()?;
                        } else if matches!(self.peek(), Some(T::Meta(_))) {
                            break;
                        } else {
                            let (_, v) = self.tyval()?;
                            count = Some(v);
                        }
                    }
                    let size = self.m.size_of(&ty);
                    I::Alloca { ty, size, count }
                }
                "load" => {
                    // one thread executes the code: an atomic access is an access
                    self.acc("atomic");
                    self.acc("volatile");
                    let ty = self.ty()?;
                    self.exp(',')?;
                    let (_, ptr) = self.tyval()?;
                    I::Load { ty, ptr }
                }
                "store" => {
                    self.acc("atomic");
                    self.acc("volatile");
                    let (ty, val) = self.tyval()?;
                    self.exp(',')?;
                    let (_, ptr) = self.tyval()?;
                    I::Store { ty, val, ptr }
                }
                "getelementptr" => {
                    let inbounds = self.acc("inbounds");
                    let et = self.ty()?;
                    self.exp(',')?;
                    let (_, base) = self.tyval()?;
                    let steps = self.gep_steps(et)?;
                    I::Gep { base, steps, inbounds }
                }
                "fneg" => {
                    let (_, a) = self.tyval()?;
                    I::FNeg { a }
                }
                "icmp" => {
                    let p = self.word()?;
                    let pred = match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return self.err("icmp pred"),
                    };
                    let ty = self.ty()?;
                    let a = self.val(&ty)?;
                    self.exp(',')?;
                    let b = self.val(&ty)?;
                    I::ICmp { pred, ty, a, b }
                }
                "fcmp" => {
                    let pred = self.word()?;
                    let ty = self.ty()?;
                    let a = self.val(&ty)?;
                    self.exp(',')?;
                    let b = self.val(&ty)?;
                    I::FCmp { pred, a, b }
                }
                "select" => {
                    let (_, c) = self.tyval()?;
                    self.exp(',')?;
                    let (_, a) = self.tyval()?;
                    self.exp(',')?;
                    let (_, b) = self.tyval()?;
                    I::Select { c, a, b }
                }
                "phi" => {
                    let ty = self.ty()?;
                    let mut inc = vec![];
                    loop {
                        self.exp('[')?;
                        let v = self.val(&ty)?;
                        self.exp(',')?;
                        let b = match self.next()? {
                            T::Loc(n) => self.block(&n),
                            _ => return self.err("phi block"),
                        };
                        self.exp(']')?;
                        inc.push((v, b));
                        if !self.accp(',') {
                            break;
                        }
                        if matches!(self.peek(), Some(T::Meta(_))) {
                            break;
                        }
                    }
                    I::Phi { ty, inc }
                }
                "extractvalue" => {
                    let (_, agg) = self.tyval()?;
                    let mut idx = vec![];
                    while self.accp(',') {
                        if matches!(self.peek(), Some(T::Meta(_))) {
                            break;
                        }
                        idx.push(self.num()? as usize);
                    }
                    I::ExtractValue { agg, idx }
                }
                "insertvalue" => {
                    let (aty, agg) = self.tyval()?;
                    self.exp(',')?;
                    let (_, val) = self.tyval()?;
                    let mut idx = vec![];
                    while self.accp(',') {
                        if matches!(self.peek(), Some(T::Meta(_))) {
                            break;
                        }
                        idx.push(self.num()? as usize);
                    }
                    I::InsertValue { aty, agg, val, idx }
                }
                "freeze" => {
                    let (_, a) = self.tyval()?;
                    I::Freeze { a }
                }
                "tail" | "musttail" | "notail" => {
                    self.expw("call")?;
                    self.call(false)?
                }
                "call" => self.call(false)?,
                "invoke" => self.call(true)?,
                "landingpad" => {
                    let (mut cleanup, mut filter, mut catches) = (false, false, vec![]);
                    while self.i < self.t.len() {
                        match &self.t[self.i] {
                            T::Word(w) if w == "cleanup" => cleanup = true,
                            T::Word(w) if w == "filter" => filter = true,
                            T::Word(w) if w == "catch" => match self.t.get(self.i + 2) {
                                Some(T::Glob(g)) => catches.push(Some(g.clone())),
                                _ => catches.push(None),
                            },
                            _ => {}
                        }
                        self.i += 1;
                    }
                    I::LandingPad { cleanup, catches, filter }
                }
                "br" => {
                    if self.isw("label") {
                        I::Br { t: self.label()? }
                    } else {
                        let (_, c) = self.tyval()?;
                        self.exp(',')?;
                        let t = self.label()?;
                        self.exp(',')?;
                        let f = self.label()?;
                        I::CondBr { c, t, f }
                    }
                }
                "switch" => {
                    let (ty, v) = self.tyval()?;
                    self.exp(',')?;
                    let def = self.label()?;
                    self.exp('[')?;
                    let mut cases = vec![];
                    while !self.accp(']') {
                        let t = self.ty()?;
                        let c = match self.cst_val(&t)? {
                            Cst::Int(_, v) => v,
                            _ => return self.err("switch case"),
                        };
                        self.exp(',')?;
                        cases.push((c, self.label()?));
                    }
                    I::Switch { ty, v, def, cases }
                }
                "ret" => {
                    if self.acc("void") {
                        I::Ret { v: None }
                    } else {
                        let (_, v) = self.tyval()?;
                        I::Ret { v: Some(v) }
                    }
                }
                "unreachable" => I::Unreachable,
                "resume" => {
                    self.i = self.t.len();
                    I::Resume
                }
                _ => return self.err(&format!("unsupported instruction {}", w)),
            }
        };
        Ok(Inst { dst, i, line: 0 })
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn parse(text: &str) -> R<Module> {
    let mut m = Module {
        types: vec![],
        tnames: HashMap::default(),
        globals: vec![],
        gnames: HashMap::default(),
        funcs: vec![],
        fnames: HashMap::default(),
        csts: vec![],
        big: false,
        ptr_bits: 64,
        i64_align: 8,
        aliases: HashMap::default(),
    };
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: datalayout, types, global names, function names, aliases
    for l in &lines {
        if l.starts_with("target datalayout") {
            let dl = l.split('"').nth(1).unwrap_or("");
            m.i64_align = 4;
            for p in dl.split('-') {
                if p == "E" {
                    m.big = true;
                }
                if let Some(r) = p.strip_prefix("p:") {
                    m.ptr_bits = r.split(':').next().unwrap().parse().map_err(|_| "p:")?;
                }
                if let Some(r) = p.strip_prefix("i64:") {
                    m.i64_align = r.split(':').next().unwrap().parse::<u64>().map_err(|_| "i64")? / 8;
                }
            }
            if m.ptr_bits == 64 {
                m.i64_align = 8;
            }
        } else if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l)?;
            if let T::Loc(n) = &t[0] {
                if !m.tnames.contains_key(n) {
                    let i = m.types.len();
                    m.types.push(Ty::Opaque);
                    m.tnames.insert(n.clone(), i);
                }
            }
        }
    }
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l)?;
            let n = match &t[0] {
                T::Loc(n) => n.clone(),
                _ => continue,
            };
            let id = m.tnames[&n];
            let mut p = P { t: &t, i: 3, m: &mut m, regs: HashMap::default(), blocks: HashMap::default(), src: l };
            let ty = p.ty()?;
            m.types[id] = ty;
        }
    }
    let mut gl: Vec<&str> = vec![];
    for l in &lines {
        if l.starts_with('@') {
            let t = lex(l)?;
            let n = match &t[0] {
                T::Glob(n) => n.clone(),
                _ => continue,
            };
            if t.iter().take(8).any(|x| *x == T::Word("alias".into())) {
                // @a = ... alias ty, ptr @b
                if let Some(T::Glob(b)) = t.iter().rev().find(|x| matches!(x, T::Glob(_))) {
                    m.aliases.insert(n, b.clone());
                }
                continue;
            }
            let i = m.globals.len();
            m.globals.push(Global { name: n.clone(), ty: Ty::Void, init: None, constant: false, size: 0 });
            m.gnames.insert(n, i);
            gl.push(l);
        }
    }
    for (gi, l) in gl.iter().enumerate() {
        let t = lex(l)?;
        let mut k = 2;
        let mut constant = false;
        let mut external = false;
        // skip to `global` / `constant`
        loop {
            match t.get(k) {
                Some(T::Word(w)) if w == "global" => {
                    k += 1;
                    break;
                }
                Some(T::Word(w)) if w == "constant" => {
                    constant = true;
                    k += 1;
                    break;
                }
                Some(T::Word(w)) if w == "external" || w == "extern_weak" => {
                    external = true;
                    k += 1;
                }
                Some(_) => k += 1,
                None => return Err(format!("global: {}", l)),
            }
        }
        let mut p = P { t: &t, i: k, m: &mut m, regs: HashMap::default(), blocks: HashMap::default(), src: l };
        let ty = p.ty()?;
        let init = if external || p.peek().is_none() || p.isp(',') { None } else { Some(p.cst_val(&ty)?) };
        let size = m.size_of(&ty);
        let g = &mut m.globals[gi];
        g.ty = ty;
        g.init = init;
        g.constant = constant;
        g.size = size;
    }
    // noreturn attribute groups
    let mut nr = HashSet::default();
    for l in &lines {
        if l.starts_with("attributes #") {
            let n = l["attributes #".len()..].split(' ').next().unwrap_or("");
            if l.contains(" noreturn ") {
                nr.insert(n.to_string());
            }
        }
    }
    let has_nr = |l: &str| -> bool {
        l.split('#').skip(1).any(|x| {
            let d: String = x.chars().take_while(|c| c.is_ascii_digit()).collect();
            nr.contains(&d)
        })
    };
    // functions
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("declare ") {
            let t = lex(l)?;
            if let Some(T::Glob(n)) = t.iter().find(|x| matches!(x, T::Glob(_))) {
                let f = m.func_id(n);
                m.funcs[f].noreturn = has_nr(l);
            }
        } else if l.starts_with("define ") {
            let t = lex(l)?;
            let gi = t.iter().position(|x| matches!(x, T::Glob(_))).ok_or("define")?;
            let n = match &t[gi] {
                T::Glob(n) => n.clone(),
                _ => unreachable!(),
            };
            let fid = m.func_id(&n);
            let mut p = P { t: &t, i: gi + 1, m: &mut m, regs: HashMap::default(), blocks: HashMap::default(), src: l };
            p.exp('(')?;
            let mut params = vec![];
            let mut byval = vec![];
            if !p.accp(')') {
                let mut anon = 0;
                loop {
                    if p.peek() == Some(&T::Ell) {
                        p.i += 1;
                    } else {
                        let _t = p.ty()?;
                        let bv = p.pattrs()?;
                        let nm = match p.peek() {
                            Some(T::Loc(n)) => {
                                let n = n.clone();
                                p.i += 1;
                                n
                            }
                            _ => {
                                anon += 1;
                                format!("{}", anon - 1)
                            }
                        };
                        params.push(p.reg(&nm));
                        byval.push(bv);
                    }
                    if !p.accp(',') {
                        break;
                    }
                }
                p.exp(')')?;
            }
            let mut regs = std::mem::take(&mut p.regs);
            let mut blocks: HashMap<String, usize> = HashMap::default();
            let mut bl: Vec<Block> = vec![];
            let mut ninsts = 0;
            i += 1;
            // join multi-line instructions (switch, invoke, landingpad)
            let mut cur: Option<usize> = None;
            while lines[i] != "}" {
                let l0 = lines[i];
                let tl = l0.trim_end();
                if tl.is_empty() {
                    i += 1;
                    continue;
                }
                if !l0.starts_with(' ') {
                    // label
                    let lab = if let Some(r) = tl.strip_prefix('"') {
                        r.split('"').next().unwrap().to_string()
                    } else {
                        tl.split(':').next().unwrap().to_string()
                    };
                    let nb = blocks.len();
                    let id = *blocks.entry(lab.clone()).or_insert(nb);
                    while bl.len() <= id {
                        bl.push(Block::default());
                    }
                    bl[id].name = lab;
                    cur = Some(id);
                    i += 1;
                    continue;
                }
                if cur.is_none() {
                    // unnamed entry
                    let nb = blocks.len();
                    let nm = format!("{}", params.len());
                    let id = *blocks.entry(nm.clone()).or_insert(nb);
                    while bl.len() <= id {
                        bl.push(Block::default());
                    }
                    bl[id].name = nm;
                    cur = Some(id);
                }
                let mut s = tl.to_string();
                let tr = tl.trim_start();
                if tr.contains("switch ") && tr.ends_with('[') {
                    while !lines[i].trim().starts_with(']') {
                        i += 1;
                        s.push(' ');
                        s.push_str(lines[i].trim());
                    }
                } else if tr.starts_with("invoke ") || tr.contains("= invoke ") {
                    while !s.contains(" unwind label ") {
                        i += 1;
                        s.push(' ');
                        s.push_str(lines[i].trim());
                    }
                }
                if tr.contains("= landingpad ") {
                    loop {
                        let nx = lines[i + 1].trim_start();
                        if !(nx.starts_with("cleanup") || nx.starts_with("catch ") || nx.starts_with("filter ")) {
                            break;
                        }
                        i += 1;
                        s.push(' ');
                        s.push_str(nx);
                    }
                }
                let t = lex(&s)?;
                let mut p = P { t: &t, i: 0, m: &mut m, regs: std::mem::take(&mut regs), blocks: std::mem::take(&mut blocks), src: &s };
                let r = p.inst();
                regs = std::mem::take(&mut p.regs);
                blocks = std::mem::take(&mut p.blocks);
                let mut inst = r?;
                inst.line = i as u32;
                if let I::Call { noreturn, .. } = &mut inst.i {
                    *noreturn = has_nr(&s);
                }
                while bl.len() < blocks.len() {
                    bl.push(Block::default());
                }
                bl[cur.unwrap()].insts.push(inst);
                ninsts += 1;
                i += 1;
            }
            let f = &mut m.funcs[fid];
            f.decl = false;
            f.params = params;
            f.byval = byval;
            f.nregs = regs.len() as u32;
            f.blocks = bl;
            f.noreturn = false;
            f.ninsts = ninsts;
            analyse(f);
        }
        i += 1;
    }
    // reject weird: blocks that were referenced but never defined are unreachable `; No predecessors` ones
    Ok(m)
}

pub fn succs(b: &Block) -> Vec<usize> {
    match b.insts.last().map(|x| &x.i) {
        Some(I::Br { t }) => vec![*t],
        Some(I::CondBr { t, f, .. }) => vec![*t, *f],
        Some(I::Switch { def, cases, .. }) => {
            let mut v = vec![*def];
            v.extend(cases.iter().map(|c| c.1));
            v
        }
        Some(I::Call { normal: Some(n), .. }) => vec![*n], // exceptional edges are never taken (a throw is an obligation failure)
        _ => vec![],
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let su: Vec<Vec<usize>> = f.blocks.iter().map(succs).collect();
    // doomed: cannot reach ret
    let mut ok = vec![false; n];
    for (i, b) in f.blocks.iter().enumerate() {
        if matches!(b.insts.last().map(|x| &x.i), Some(I::Ret { .. })) {
            ok[i] = true;
        }
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            if !ok[i] && su[i].iter().any(|s| ok[*s]) {
                ok[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..n {
        f.blocks[i].doomed = !ok[i];
    }
    // loop headers: targets of DFS back edges
    let mut color = vec![0u8; n];
    let mut st: Vec<(usize, usize)> = vec![];
    if n > 0 {
        // entry is the first block defined = index of first label; blocks numbered by first mention; entry is block 0
        st.push((0, 0));
        color[0] = 1;
        while let Some((b, k)) = st.pop() {
            if k < su[b].len() {
                st.push((b, k + 1));
                let s = su[b][k];
                if color[s] == 0 {
                    color[s] = 1;
                    st.push((s, 0));
                } else if color[s] == 1 {
                    f.blocks[s].loop_header = true;
                }
            } else {
                color[b] = 2;
            }
        }
    }
    // post-dominators via iterative sets on ok-blocks (small functions)
    let exit = n;
    let words = (n + 1 + 63) / 64;
    let full = vec![!0u64; words];
    let mut pd: Vec<Vec<u64>> = vec![full.clone(); n + 1];
    pd[exit] = vec![0; words];
    pd[exit][exit / 64] |= 1 << (exit % 64);
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            if !ok[i] {
                continue;
            }
            let mut s2: Vec<usize> = su[i].iter().cloned().filter(|s| ok[*s]).collect();
            if matches!(f.blocks[i].insts.last().map(|x| &x.i), Some(I::Ret { .. })) {
                s2.push(exit);
            }
            let mut x = full.clone();
            for s in s2 {
                for w in 0..words {
                    x[w] &= pd[s][w];
                }
            }
            x[i / 64] |= 1 << (i % 64);
            if x != pd[i] {
                pd[i] = x;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let count = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
    for i in 0..n {
        if !ok[i] {
            continue;
        }
        // immediate: the strict postdominator with the largest pd set
        let mut best: Option<usize> = None;
        let mut bc = 0;
        for j in 0..=n {
            if j != i && (pd[i][j / 64] >> (j % 64)) & 1 == 1 {
                let c = count(&pd[j]);
                if c > bc {
                    bc = c;
                    best = Some(j);
                }
            }
        }
        f.blocks[i].ipdom = best.filter(|b| *b != exit);
    }
}
