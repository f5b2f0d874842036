//! Symbolic execution of the extracted IR: generates and discharges the memory-safety / UB obligations,
//! infers and checks inductive loop invariants at cut points, and produces post-states for the contracts.
use crate::ir::*;
use crate::prove::Verdict;
use crate::term::*;
use crate::term::{HashMap, HashSet};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cell {
    pub n: N,
    pub k: u16,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OK {
    Const,
    Global,
    Stack,
    Heap,
    Region(u32),
    Driver,
}

#[path = "cli.rs"]
pub mod cli;

const CH: usize = 32;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub szn: Option<N>, // symbolic size (regions, symbolic heap blocks)
    pub lo: u64,         // first valid offset (input regions)
    pub kind: OK,
    pub alive: bool,
    pub name: Rc<str>,
    pub cells: Vec<Rc<[Cell; CH]>>,
    pub stripes: Option<Rc<Vec<Stripe>>>, // content of symbolic-size blocks
}

/// a piece of a symbolic-size heap block
#[derive(Clone, PartialEq, Debug)]
pub struct Stripe {
    pub off: N,
    pub len: N,
    pub what: StripeVal,
}
#[derive(Clone, PartialEq, Debug)]
pub enum StripeVal {
    Undef,
    Zero,
    Bytes(Vec<N>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: usize,
    pub blk: usize,
    pub prev: usize,
    pub ip: usize,
    pub regs: Vec<N>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<usize>,
    pub hist: Vec<(usize, u32, Vec<Rc<State>>)>, // header block, ufork count at last visit, snapshots
}

#[derive(Clone)]
pub struct Cut {
    pub id: u32,
    pub depth: usize,
    pub blk: usize,
    pub k: u32,
    pub m: u32,
    pub d: i128,
    pub g: Rc<State>,
    pub chain: Vec<(N, N)>, // generalised chain symbol -> its value after one more iteration
    pub havoc: Rc<HashSet<N>>,
    pub aux: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Rc<Obj>>,
    pub rng: Vec<(i128, i128)>,
    pub path: Vec<N>,
    pub ufork: u32,
    pub cuts: Vec<Rc<Cut>>,
    pub subst: Vec<Rc<HashMap<u32, Lin>>>,
    pub ret: Option<N>,
    pub gwrites: u32,
    pub calls: Vec<Vec<N>>, // recorded calls of the hooked function
    pub note: Vec<String>,
    pub gh: Option<Rc<cli::Ghost>>, // ghost state of the program around the library
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub func: String,
    pub msg: String,
    pub definite: bool,
}

pub struct Chain {
    pub step: Box<dyn Fn(&mut Ctx, &[N], &Lin) -> Vec<N>>, // words, block position -> words after absorbing it
    pub widths: Vec<u32>,
    pub tags: FxMap<N, Vec<(usize, Lin)>>,
    pub fams: HashMap<(u32, Lin, i128), Vec<N>>, // symbolic chaining values at loop cuts, by (iteration symbol, position, step)
    pub ahead: usize,
}

#[derive(Clone)]
pub enum HookAct {
    Receiver,             // returns its first argument
    Bytes,                // likewise; the bytes of the range passed are recorded
    Strings(Vec<usize>),  // no result; the contents of these std::string arguments are recorded
    Value(N),
    Cli(cli::Kind, usize), // external functions and library calls of the command line program
    Vector(Vec<N>, N),    // std::vector<unsigned char> with these elements, and this size
    String(Vec<N>),
}
#[derive(Clone)]
pub struct Hook {
    pub tag: u32,
    pub act: HookAct,
}

pub const UNSET: N = u32::MAX;

pub struct Exec<'m> {
    pub m: &'m Module,
    pub c: Ctx,
    pub fails: Vec<Fail>,
    pub oblig: BTreeMap<String, u64>, // kind -> discharged count (dynamic)
    pub sites: HashSet<(usize, u32, u8)>,
    pub funcs_seen: HashSet<usize>,
    pub steps: u64,
    pub max_steps: u64,
    pub gobj: Vec<u32>,
    cst_cache: Vec<N>,
    pub chain: Option<Chain>,
    pub addr_syms: HashMap<u32, u32>,
    pub cut_syms: HashMap<(u32, i128, i128, i128), Vec<(u32, u32)>>,
    pub cut_fail: HashMap<u32, Vec<(N, N, Loc)>>,
    pub cut_fail_msgs: Vec<String>,
    pub ncuts: u32,
    pub cuts_done: u64,
    pub forks: u64,
    pub merges: u64,
    pub uninit: N,
    pub trace: bool,
    pub assumptions: std::collections::BTreeSet<String>,
    pub ext_calls: std::collections::BTreeSet<String>,
    pub ignore_writes: bool,
    pub cli: Option<Box<cli::Cli>>,
    pub hooks: HashMap<usize, Hook>, // callees replaced by their contracts: calls are recorded
    /// tables read before: the memory they were built from is kept, so that identity of the chunks means identity of the content
    tabcache: HashMap<(usize, u64, u64, u32, u32), (Vec<Rc<[Cell; CH]>>, u32)>,
}

pub type Res<T> = Result<T, String>;

enum Step {
    Go,
    Fork(Vec<State>),
    Merge(N, usize, usize), // cond, t, f
    Cut(Box<(usize, usize)>),
    Stop,
    Done,
    Dead,
}

impl Obj {
    pub fn get(&self, i: u64) -> Cell {
        self.cells[i as usize / CH][i as usize % CH]
    }
    pub fn set(&mut self, i: u64, c: Cell) {
        let ch = &mut self.cells[i as usize / CH];
        if ch[i as usize % CH] != c {
            Rc::make_mut(ch)[i as usize % CH] = c;
        }
    }
}

impl State {
    pub fn obj_mut(&mut self, i: u32) -> &mut Obj {
        Rc::make_mut(&mut self.objs[i as usize])
    }
    pub fn new_obj(&mut self, size: u64, kind: OK, name: &str, uninit: N) -> u32 {
        let nch = (size as usize + CH - 1) / CH;
        let chunk: Rc<[Cell; CH]> = Rc::new([Cell { n: uninit, k: 0 }; CH]);
        self.objs.push(Rc::new(Obj { size, szn: None, lo: 0, kind, alive: true, name: name.into(), cells: vec![chunk; nch], stripes: None }));
        (self.objs.len() - 1) as u32
    }
    pub fn fr(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, seed: u64) -> Exec<'m> {
        let mut c = Ctx::new(seed, m.ptr_bits);
        let uninit = c.undef(8);
        Exec {
            m,
            c,
            fails: vec![],
            oblig: BTreeMap::new(),
            sites: Default::default(),
            funcs_seen: Default::default(),
            steps: 0,
            max_steps: 2_000_000_000,
            gobj: vec![],
            cst_cache: vec![UNSET; m.csts.len()],
            chain: None,
            addr_syms: HashMap::default(),
            cut_syms: Default::default(),
            cut_fail: HashMap::default(),
            cut_fail_msgs: vec![],
            ncuts: 0,
            cuts_done: 0,
            forks: 0,
            merges: 0,
            uninit,
            trace: std::env::var("IRV_TRACE").is_ok(),
            assumptions: Default::default(),
            ext_calls: Default::default(),
            ignore_writes: false,
            cli: None,
            hooks: HashMap::default(),
            tabcache: HashMap::default(),
        }
    }
    pub fn pw(&self) -> u32 {
        self.m.ptr_bits
    }
    pub fn init_state(&mut self) -> Res<State> {
        let mut st = State {
            frames: vec![],
            objs: vec![],
            rng: vec![],
            path: vec![],
            ufork: 0,
            cuts: vec![],
            subst: vec![],
            ret: None,
            gwrites: 0,
            calls: vec![],
            note: vec![],
            gh: None,
        };
        // object 0 = null guard
        st.new_obj(0, OK::Const, "null", self.uninit);
        for g in &self.m.globals {
            let k = if g.constant { OK::Const } else { OK::Global };
            let o = st.new_obj(g.size, k, &g.name, self.uninit);
            self.gobj.push(o);
        }
        for (i, g) in self.m.globals.iter().enumerate() {
            if let Some(init) = &g.init {
                let o = self.gobj[i];
                self.init_cst(&mut st, o, 0, &g.ty, init)?;
            }
        }
        st.rng = self.c.rng.clone();
        Ok(st)
    }
    fn init_cst(&mut self, st: &mut State, o: u32, off: u64, ty: &Ty, c: &Cst) -> Res<()> {
        let ty = self.m.resolve(ty).clone();
        match c {
            Cst::Zero(_) => {
                let z = self.c.c(8, 0);
                for i in 0..self.m.size_of(&ty) {
                    st.obj_mut(o).set(off + i, Cell { n: z, k: 0 });
                }
            }
            Cst::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    let n = self.c.c(8, *x as u128);
                    st.obj_mut(o).set(off + i as u64, Cell { n, k: 0 });
                }
            }
            Cst::Agg(_, v) => match &ty {
                Ty::Arr(_, e) => {
                    let s = self.m.size_of(e);
                    for (i, x) in v.iter().enumerate() {
                        self.init_cst(st, o, off + i as u64 * s, e, x)?;
                    }
                }
                Ty::Struct(f, p) => {
                    for (i, x) in v.iter().enumerate() {
                        let fo = self.m.field_off(f, *p, i);
                        self.init_cst(st, o, off + fo, &f[i], x)?;
                    }
                }
                _ => return Err("init agg".into()),
            },
            Cst::Undef(_) => {}
            _ => {
                let n = self.cst_node(c, &ty)?;
                let sz = self.m.store_size(&ty);
                self.put(st, o, off, n, sz);
            }
        }
        Ok(())
    }
    fn cst_node(&mut self, c: &Cst, _ty: &Ty) -> Res<N> {
        let pw = self.pw();
        Ok(match c {
            Cst::Int(w, v) => self.c.c(*w, *v),
            Cst::Null => self.c.c(pw, 0),
            Cst::Undef(t) => self.undef_ty(t),
            Cst::F64(f) => self.f64(*f),
            Cst::F32(f) => self.f64(*f as f64),
            Cst::Zero(t) => self.zero_ty(t)?,
            Cst::Global(g, o) => {
                let off = self.c.c(pw, *o as u128);
                let obj = *self.gobj.get(*g).ok_or("global order")?;
                self.c.ptr(obj, off)
            }
            Cst::Func(f) => self.c.mk(O::Fn, pw, [0; 3], *f as u128),
            Cst::Agg(_, v) => {
                let mut l = vec![];
                for x in v {
                    l.push(self.cst_node(x, &Ty::Void)?);
                }
                self.c.agg(l)
            }
            Cst::PtrToInt(x, w) => {
                let p = self.cst_node(x, &Ty::Ptr)?;
                let i = self.ptr_to_int(p)?;
                if *w <= self.c.w(i) { self.c.trunc(i, *w) } else { self.c.zext(i, *w) }
            }
            _ => return Err(format!("constant {:?}", c)),
        })
    }
    pub fn f64(&mut self, f: f64) -> N {
        self.c.mk(O::F64, 64, [0; 3], f.to_bits() as u128)
    }
    fn undef_ty(&mut self, t: &Ty) -> N {
        match self.m.resolve(t).clone() {
            Ty::Int(w) => self.c.undef(w),
            Ty::Struct(f, _) => {
                let v: Vec<N> = f.iter().map(|x| self.undef_ty(x)).collect();
                self.c.agg(v)
            }
            Ty::Arr(n, e) => {
                let x = self.undef_ty(&e);
                self.c.agg(vec![x; n as usize])
            }
            _ => self.c.undef(64),
        }
    }
    fn zero_ty(&mut self, t: &Ty) -> Res<N> {
        Ok(match self.m.resolve(t).clone() {
            Ty::Int(w) => self.c.c(w, 0),
            Ty::Ptr => {
                let w = self.pw();
                self.c.c(w, 0)
            }
            Ty::F64 | Ty::F32 => self.f64(0.0),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for x in &f {
                    v.push(self.zero_ty(x)?);
                }
                self.c.agg(v)
            }
            Ty::Arr(n, e) => {
                let x = self.zero_ty(&e)?;
                self.c.agg(vec![x; n as usize])
            }
            _ => return Err("zeroinitializer".into()),
        })
    }
    fn ok(&mut self, kind: &str, st: &State, tag: u8) {
        *self.oblig.entry(kind.to_string()).or_insert(0) += 1;
        if let Some(f) = st.frames.last() {
            self.sites.insert((f.f, (f.blk as u32) << 12 | f.ip as u32, tag));
        }
    }
    fn fail(&mut self, st: &State, kind: &str, msg: String, definite: bool) {
        let func = match st.frames.last() {
            Some(f) => format!("{} (block {})", self.m.funcs[f.f].name, self.m.funcs[f.f].blocks[f.blk].name),
            None => "driver".into(),
        };
        if self.trace {
            eprintln!("FAIL {} {} {}", kind, func, msg);
            for f in &st.frames {
                eprintln!("  in {} block {} ip {}", self.m.funcs[f.f].name, self.m.funcs[f.f].blocks[f.blk].name, f.ip);
            }
        }
        if self.fails.len() < 1000 {
            self.fails.push(Fail { kind: kind.into(), func, msg, definite });
        }
    }
    // ------------------------------------------------------------ memory
    pub fn put(&mut self, st: &mut State, o: u32, off: u64, v: N, size: u64) {
        let w = self.c.w(v);
        let v = if w != (size * 8) as u32 && self.c.op(v) != O::F64 && self.c.op(v) != O::Undef { self.c.zext(v, (size * 8) as u32) } else { v };
        let big = self.m.big;
        let und = self.c.op(v) == O::Undef;
        let un = self.uninit;
        let ob = st.obj_mut(o);
        for i in 0..size {
            let k = if big { size - 1 - i } else { i };
            ob.set(off + i, if und { Cell { n: un, k: 0 } } else { Cell { n: v, k: k as u16 } });
        }
    }
    pub fn byte_of(&mut self, c: Cell) -> Option<N> {
        let nd = self.c.nd(c.n);
        match nd.o {
            O::Ptr | O::Fn | O::F64 | O::Agg => None,
            _ => {
                if nd.w == 8 && c.k == 0 {
                    Some(c.n)
                } else {
                    Some(self.c.ext(c.n, 8 * c.k as u32, 8))
                }
            }
        }
    }
    pub fn get(&mut self, st: &State, o: u32, off: u64, size: u64) -> Res<N> {
        let ob = &st.objs[o as usize];
        let big = self.m.big;
        let at = |s: u64| -> u64 { if big { off + size - 1 - s } else { off + s } };
        let c0 = ob.get(at(0));
        if c0.k == 0 {
            let w = self.c.w(c0.n);
            if w as u64 == size * 8 || (self.c.op(c0.n) == O::F64 && size == 8) {
                let mut all = true;
                for s in 1..size {
                    let c = ob.get(at(s));
                    if c.n != c0.n || c.k as u64 != s {
                        all = false;
                        break;
                    }
                }
                if all {
                    return Ok(c0.n);
                }
            }
        }
        let cells: Vec<Cell> = (0..size).rev().map(|s| ob.get(at(s))).collect();
        let mut l = vec![];
        for c in cells {
            match self.byte_of(c) {
                Some(b) => l.push(b),
                None => return Err("partial pointer/float load".into()),
            }
        }
        if l.iter().any(|x| *x == self.uninit) {
            return Ok(self.c.undef((size * 8) as u32));
        }
        Ok(self.c.cat(l))
    }
    fn addr_sym(&mut self, o: u32, st: Option<&mut State>) -> u32 {
        if let Some(s) = self.addr_syms.get(&o) {
            let s = *s;
            if let Some(st) = st {
                self.sync_in(st);
            }
            return s;
        }
        let (lo, hi) = if self.pw() == 64 { (1i128 << 32, 1i128 << 46) } else { (1i128 << 16, 1i128 << 31) };
        let s = self.c.asym(&format!("addr{}", o), lo, hi);
        self.addr_syms.insert(o, s);
        if let Some(st) = st {
            st.rng = self.c.rng.clone();
        }
        s
    }
    fn ptr_to_int(&mut self, p: N) -> Res<N> {
        let nd = self.c.nd(p).clone();
        match nd.o {
            O::Const => Ok(p),
            O::Ptr => {
                let s = self.addr_sym(nd.imm as u32, None);
                let w = self.pw();
                let a = self.c.sym_lin(s, w);
                Ok(self.c.add(a, nd.a[0]))
            }
            O::Fn => Ok(p),
            O::Undef => Ok(p),
            _ => Ok(p),
        }
    }
    fn int_to_ptr(&mut self, i: N) -> Res<N> {
        if let Some(l) = self.c.as_lin(i) {
            for (o, s) in self.addr_syms.clone() {
                if l.t.iter().any(|x| x.0 == s && x.1 == 1) {
                    let w = self.pw();
                    let a = self.c.sym_lin(s, w);
                    let off = self.c.sub(i, a);
                    return Ok(self.c.ptr(o, off));
                }
            }
        }
        Ok(i)
    }
    /// bounds + liveness obligation for an access of `size` bytes; returns object and offset
    fn access(&mut self, st: &mut State, p: N, size: u64, write: bool) -> Res<Option<(u32, N)>> {
        let nd = self.c.nd(p).clone();
        if nd.o != O::Ptr {
            let d = nd.o == O::Const || nd.o == O::Undef;
            self.fail(st, "null-or-wild-pointer", format!("access of {} bytes through {}", size, self.c.show(p, 2)), d);
            return Ok(None);
        }
        let o = nd.imm as u32;
        let off = self.c.norm(nd.a[0]);
        let (alive, kind, osz, szn) = {
            let ob = &st.objs[o as usize];
            (ob.alive, ob.kind, ob.size, ob.szn)
        };
        if !alive {
            self.fail(st, "use-after-free", format!("object {}", st.objs[o as usize].name), true);
            return Ok(None);
        }
        if write && (kind == OK::Const || matches!(kind, OK::Region(_))) && !self.ignore_writes {
            self.fail(st, "write-to-input", format!("write into read-only {}", st.objs[o as usize].name), true);
            return Ok(None);
        }
        if write && kind == OK::Global {
            st.gwrites += 1;
        }
        let w = self.pw();
        match szn {
            None => {
                if let Some(v) = self.c.cval(off) {
                    if (v as u64).checked_add(size).map_or(true, |e| e > osz) {
                        self.fail(st, "out-of-bounds", format!("{} of {} bytes at offset {} of {} (size {})", if write { "write" } else { "read" }, size, crate::ir::sext(v, w), st.objs[o as usize].name, osz), true);
                        return Ok(None);
                    }
                } else {
                    let (_, hi) = self.c.urange(off, 6);
                    if hi + size as u128 > osz as u128 {
                        if self.c.op(off) == O::Lin {
                            return Ok(Some((o, off))); // concretised by the caller, then re-checked
                        }
                        let lim = self.c.c(w, (osz + 1).saturating_sub(size) as u128);
                        let g = self.c.ult(off, lim);
                        let path = st.path.clone();
                        let (v, how) = self.c.decide_true(g, &path);
                        if v != Verdict::Proved {
                            self.fail(st, "out-of-bounds", format!("index into {} not provably in bounds ({:?}, {})", st.objs[o as usize].name, v, how), v == Verdict::Refuted);
                            return Ok(None);
                        }
                    }
                }
            }
            Some(s) => {
                // off + size <= s
                let k = self.c.c(w, size as u128);
                let e = self.c.add(off, k);
                let bad = self.c.ult(s, e);
                let neg = {
                    let z = self.c.c(w, st.objs[o as usize].lo as u128);
                    self.c.ult(off, z)
                };
                if self.c.cval(bad) != Some(0) || self.c.cval(neg) != Some(0) {
                    let d = self.c.cval(bad) == Some(1) || self.c.cval(neg) == Some(1);
                    self.fail(st, "out-of-bounds", format!("{} bytes at {} of {} (size {})", size, self.c.show(off, 6), st.objs[o as usize].name, self.c.show(s, 2)), d);
                    return Ok(None);
                }
            }
        }
        self.ok(if write { "memory-write-in-bounds" } else { "memory-read-in-bounds" }, st, 1);
        Ok(Some((o, off)))
    }
    /// fork so that an affine offset becomes constant
    fn pin(&mut self, st: &State, n: N) -> Res<Vec<State>> {
        let l = self.c.as_lin(n).ok_or("pin: not affine")?;
        let (s, _) = *l.t.iter().min_by_key(|x| self.c.rng[x.0 as usize].1 - self.c.rng[x.0 as usize].0).ok_or("pin")?;
        let (lo, hi) = st.rng[s as usize];
        if hi - lo > 4096 {
            return Err(format!("cannot concretise {}", self.c.show(n, 3)));
        }
        let mut out = vec![];
        for v in lo..=hi {
            let mut x = st.clone();
            x.rng[s as usize] = (v, v);
            out.push(x);
        }
        self.forks += out.len() as u64;
        Ok(out)
    }
    fn load(&mut self, st: &mut State, p: N, size: u64, is_ptr: bool) -> Res<Result<N, Vec<State>>> {
        let (o, off) = match self.access(st, p, size, false)? {
            Some(x) => x,
            None => return Err("stop".into()),
        };
        if let OK::Region(r) = st.objs[o as usize].kind {
            let w = self.pw();
            let mut l = vec![];
            for s in (0..size).rev() {
                let i = if self.m.big { size - 1 - s } else { s };
                let k = self.c.c(w, i as u128);
                let a = self.c.add(off, k);
                l.push(self.c.inb(r, a));
            }
            return Ok(Ok(self.c.cat(l)));
        }
        if st.objs[o as usize].szn.is_some() {
            return self.stripe_load(st, o, off, size).map(Ok);
        }
        if let Some(v) = self.c.cval(off) {
            let x = self.get(st, o, v as u64, size)?;
            let _ = is_ptr;
            return Ok(Ok(x));
        }
        if self.c.op(off) == O::Lin {
            return Ok(Err(self.pin(st, off)?));
        }
        // table lookup
        match self.table_load(st, o, off, size)? {
            Some(n) => Ok(Ok(n)),
            None => Err(format!("symbolic index into non-constant memory {} : {}", st.objs[o as usize].name, self.c.show(off, 4))),
        }
    }
    /// decompose off = base + (x << s) with x a narrow term
    fn decompose(&mut self, off: N) -> Option<(u64, N, u32)> {
        let nd = self.c.nd(off).clone();
        match nd.o {
            O::Add => {
                if let Some(c) = self.c.cval(nd.a[1]) {
                    let (b, x, s) = self.decompose(nd.a[0])?;
                    return Some((b.wrapping_add(c as u64), x, s));
                }
                if let Some(c) = self.c.cval(nd.a[0]) {
                    let (b, x, s) = self.decompose(nd.a[1])?;
                    return Some((b.wrapping_add(c as u64), x, s));
                }
                None
            }
            O::Cat => {
                let mut l = self.c.args(off);
                let mut sh = 0;
                let mut base = 0u64;
                if l.len() >= 2 {
                    let last = *l.last().unwrap();
                    if let Some(c) = self.c.cval(last) {
                        sh = self.c.w(last);
                        base += c as u64;
                        l.pop();
                    }
                    // leading constants
                    let mut lead = 0u128;
                    let mut any = false;
                    while l.len() > 1 && self.c.cval(l[0]).is_some() {
                        let c = self.c.cval(l[0]).unwrap();
                        lead = (lead << self.c.w(l[0])) | c;
                        any = true;
                        l.remove(0);
                    }
                    let x = self.c.cat(l);
                    if any && lead != 0 {
                        base += (lead << (sh + self.c.w(x))) as u64;
                    }
                    if self.c.w(x) <= 12 {
                        return Some((base, x, sh));
                    }
                }
                None
            }
            O::Mul => {
                let c = self.c.cval(nd.a[1])?;
                if c.is_power_of_two() {
                    let (b, x, s) = self.decompose(nd.a[0])?;
                    return Some((b * c as u64, x, s + c.trailing_zeros()));
                }
                None
            }
            _ => {
                let z = self.c.kz[off as usize];
                let lead = (!(z | !ones(nd.w))).leading_zeros() - (128 - nd.w);
                let used = nd.w - lead;
                if used <= 12 && used > 0 {
                    let x = self.c.ext(off, 0, used);
                    return Some((0, x, 0));
                }
                None
            }
        }
    }
    fn table_load(&mut self, st: &State, o: u32, off: N, size: u64) -> Res<Option<N>> {
        let (base, x, sh) = match self.decompose(off) {
            Some(x) => x,
            None => return Ok(None),
        };
        let iw = self.c.w(x);
        let n = 1u64 << iw;
        let ob = st.objs[o as usize].clone();
        let (c0, c1) = (base as usize / CH, (base.wrapping_add(((n - 1) << sh) + size) as usize).div_ceil(CH).min(ob.cells.len()));
        let cacheable = c0 < c1 && ob.szn.is_none() && n > 16;
        let key = if cacheable { (Rc::as_ptr(&ob.cells[c0]) as *const u8 as usize, base, size, sh, iw) } else { Default::default() };
        if cacheable {
            if let Some((ch, t)) = self.tabcache.get(&key) {
                if ch.len() == c1 - c0 && ch.iter().zip(&ob.cells[c0..c1]).all(|(a, b)| Rc::ptr_eq(a, b)) {
                    let t = *t;
                    return Ok(Some(self.c.tab(t, x)));
                }
            }
        }
        let mut v = Vec::with_capacity(n as usize);
        let mut nonconst = false;
        let mut entries: Vec<N> = vec![];
        for i in 0..n {
            let a = base.wrapping_add(i << sh);
            if a.checked_add(size).map_or(true, |e| e > ob.size) {
                // entries outside the object: unreachable by the bounds obligation already discharged
                v.push(0);
                entries.push(UNSET);
                continue;
            }
            let e = self.get(st, o, a, size)?;
            entries.push(e);
            match self.c.cval(e) {
                Some(k) => v.push(k),
                None => {
                    nonconst = true;
                    v.push(0)
                }
            }
        }
        if nonconst {
            if n > 64 {
                return Ok(None);
            }
            // small mux
            let mut r = UNSET;
            for (i, e) in entries.iter().enumerate() {
                if *e == UNSET {
                    continue;
                }
                if matches!(self.c.op(*e), O::Ptr | O::Undef) {
                    return Ok(None);
                }
                if r == UNSET {
                    r = *e;
                } else {
                    let k = self.c.c(iw, i as u128);
                    let q = self.c.eq(x, k);
                    r = self.c.ite(q, *e, r);
                }
            }
            return Ok(Some(r));
        }
        let t = self.c.table(iw, (size * 8) as u32, v);
        if cacheable {
            if self.tabcache.len() > 256 {
                self.tabcache.clear();
            }
            self.tabcache.insert(key, (ob.cells[c0..c1].to_vec(), t));
        }
        Ok(Some(self.c.tab(t, x)))
    }
    fn store(&mut self, st: &mut State, p: N, v: N, size: u64) -> Res<Option<Vec<State>>> {
        let (o, off) = match self.access(st, p, size, true)? {
            Some(x) => x,
            None => return Err("stop".into()),
        };
        if st.objs[o as usize].szn.is_some() {
            let big = self.m.big;
            let w = self.pw();
            for i in 0..size {
                let k = if big { size - 1 - i } else { i };
                let b = self.c.ext(v, 8 * k as u32, 8);
                let ki = self.c.c(w, i as u128);
                let a = self.c.add(off, ki);
                let one = self.c.c(w, 1);
                self.stripe_write(st, o, a, one, StripeVal::Bytes(vec![b]))?;
            }
            return Ok(None);
        }
        if let Some(x) = self.c.cval(off) {
            self.put(st, o, x as u64, v, size);
            return Ok(None);
        }
        if self.c.op(off) == O::Lin {
            return Ok(Some(self.pin(st, off)?));
        }
        // symbolic index store into a small array: conditional update of every candidate slot
        if let Some((base, x, sh)) = self.decompose(off) {
            let iw = self.c.w(x);
            if iw <= 6 && size == 1 << sh {
                for i in 0..(1u64 << iw) {
                    let a = base + (i << sh);
                    if a + size > st.objs[o as usize].size {
                        continue;
                    }
                    let old = self.get(st, o, a, size)?;
                    let k = self.c.c(iw, i as u128);
                    let q = self.c.eq(x, k);
                    let nv = self.c.ite(q, v, old);
                    self.put(st, o, a, nv, size);
                }
                return Ok(None);
            }
        }
        Err(format!("store with symbolic index {}", self.c.show(off, 3)))
    }
    fn stripe_load(&mut self, _st: &mut State, _o: u32, off: N, _size: u64) -> Res<N> {
        Err(format!("load from symbolic-size block at {}", self.c.show(off, 3)))
    }
    fn stripe_write(&mut self, _st: &mut State, _o: u32, off: N, _len: N, _v: StripeVal) -> Res<()> {
        Err(format!("store to symbolic-size block at {}", self.c.show(off, 3)))
    }
    fn agg_fields(&self, ty: &Ty) -> Vec<(u64, Ty)> {
        match ty {
            Ty::Arr(n, e) => (0..*n).map(|i| (i * self.m.size_of(e), (**e).clone())).collect(),
            Ty::Struct(f, pk) => (0..f.len()).map(|i| (self.m.field_off(f, *pk, i), f[i].clone())).collect(),
            _ => vec![],
        }
    }
    fn agg_load(&mut self, st: &mut State, p: N, ty: &Ty) -> Res<N> {
        let m = self.m;
        let rt = m.resolve(ty).clone();
        if let Ty::Struct(..) | Ty::Arr(..) = rt {
            let mut l = vec![];
            for (o, t) in self.agg_fields(&rt) {
                let w = self.pw();
                let k = self.c.c(w, o as u128);
                let q = self.gep_raw(p, k);
                l.push(self.agg_load(st, q, &t)?);
            }
            return Ok(self.c.agg(l));
        }
        match self.load(st, p, m.store_size(&rt), rt == Ty::Ptr)? {
            Ok(n) => Ok(match &rt {
                Ty::Int(w) if (*w as u64) < m.store_size(&rt) * 8 => self.c.trunc(n, *w),
                Ty::F64 => self.bits_to_f(n)?,
                Ty::F32 => return Err("float load".into()),
                _ => n,
            }),
            Err(_) => Err("aggregate load at a symbolic offset".into()),
        }
    }
    fn agg_store(&mut self, st: &mut State, p: N, v: N, ty: &Ty) -> Res<()> {
        let m = self.m;
        let rt = m.resolve(ty).clone();
        if let Ty::Struct(..) | Ty::Arr(..) = rt {
            let v = if self.c.op(v) == O::Undef { self.undef_ty(&rt) } else { v };
            let l = self.c.args(v);
            for (i, (o, t)) in self.agg_fields(&rt).into_iter().enumerate() {
                let w = self.pw();
                let k = self.c.c(w, o as u128);
                let q = self.gep_raw(p, k);
                self.agg_store(st, q, l[i], &t)?;
            }
            return Ok(());
        }
        if self.store(st, p, v, m.store_size(&rt))?.is_some() {
            return Err("aggregate store at a symbolic offset".into());
        }
        Ok(())
    }
    // ------------------------------------------------------------ operands
    fn opv(&mut self, st: &State, op: &Op) -> Res<N> {
        match op {
            Op::R(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize];
                if v == UNSET {
                    return Err("read of unset register".into());
                }
                Ok(v)
            }
            Op::C(i) => {
                let v = self.cst_cache[*i];
                if v != UNSET {
                    return Ok(v);
                }
                let c = &self.m.csts[*i];
                let n = self.cst_node(c, &Ty::Void)?;
                self.cst_cache[*i] = n;
                Ok(n)
            }
        }
    }
    fn fval(&self, n: N) -> Res<f64> {
        let nd = self.c.nd(n);
        if nd.o == O::F64 && nd.imm >> 64 == 0 {
            Ok(f64::from_bits(nd.imm as u64))
        } else {
            Err("symbolic floating point".into())
        }
    }
    /// a floating-point value known up to an interval (non-constant values only support monotone operations)
    fn fint(&self, n: N) -> Res<(f64, f64)> {
        let nd = self.c.nd(n);
        if nd.o != O::F64 {
            return Err("symbolic floating point".into());
        }
        let lo = f64::from_bits(nd.imm as u64);
        Ok((lo, if nd.imm >> 64 == 0 { lo } else { f64::from_bits((nd.imm >> 64) as u64) }))
    }
    fn mkint(&mut self, lo: f64, hi: f64) -> Res<N> {
        if lo == hi {
            return Ok(self.f64(lo));
        }
        if !(lo < hi) || hi == 0.0 {
            return Err("symbolic floating point".into());
        }
        Ok(self.c.mk(O::F64, 64, [0; 3], lo.to_bits() as u128 | (hi.to_bits() as u128) << 64))
    }
    pub fn call_fn(&mut self, mut st: State, name: &str, args: &[N]) -> Res<Vec<State>> {
        let f = *self.m.fnames.get(name).ok_or(format!("no function {}", name))?;
        self.c.set_rng(&st.rng);
        self.sync_in(&mut st);
        let base = st.frames.len();
        self.push_frame(&mut st, f, args.to_vec(), None, None)?;
        let outs = self.run(st, Some((base + 1, usize::MAX)))?;
        Ok(outs)
    }
    fn push_frame(&mut self, st: &mut State, f: usize, args: Vec<N>, dst: Option<u32>, normal: Option<usize>) -> Res<()> {
        let fu = &self.m.funcs[f];
        self.funcs_seen.insert(f);
        if st.frames.len() > 200 {
            return Err("call depth".into());
        }
        let mut regs = vec![UNSET; fu.nregs as usize];
        let mut allocas = vec![];
        for (i, p) in fu.params.iter().enumerate() {
            let mut v = *args.get(i).ok_or("arg count")?;
            if let Some(sz) = fu.byval[i] {
                // callee gets its own copy
                let o = st.new_obj(sz, OK::Stack, "byval", self.uninit);
                allocas.push(o);
                let nd = self.c.nd(v).clone();
                if nd.o != O::Ptr {
                    return Err("byval pointer".into());
                }
                let src = nd.imm as u32;
                let so = self.c.cval(nd.a[0]).ok_or("byval offset")? as u64;
                let w = self.pw();
                for i in 0..sz {
                    let c = st.objs[src as usize].get(so + i);
                    st.obj_mut(o).set(i, c);
                }
                let z = self.c.c(w, 0);
                v = self.c.ptr(o, z);
            }
            regs[*p as usize] = v;
        }
        st.frames.push(Frame { f, blk: 0, prev: usize::MAX, ip: 0, regs, allocas, dst, normal, hist: vec![] });
        Ok(())
    }
    // ------------------------------------------------------------ main loop
    /// run until the stop point: (depth, block) = about to enter block at that frame depth;
    /// (depth, MAX) = frame at that depth returned.
    pub fn run(&mut self, st: State, stop: Option<(usize, usize)>) -> Res<Vec<State>> {
        let mut work = vec![st];
        let mut outs = vec![];
        while let Some(mut st) = work.pop() {
            self.sync_in(&mut st);
            loop {
                self.steps += 1;
                if self.steps & 1023 == 0 {
                    if self.steps > self.max_steps {
                        return Err("step limit".into());
                    }
                    if self.c.late() {
                        return Err("time limit".into());
                    }
                }
                match self.step(&mut st, stop) {
                    Ok(Step::Go) => {}
                    Ok(Step::Fork(v)) => {
                        for x in v.into_iter().rev() {
                            work.push(x);
                        }
                        break;
                    }
                    Ok(Step::Stop) | Ok(Step::Done) => {
                        outs.push(st);
                        break;
                    }
                    Ok(Step::Dead) => break,
                    Ok(Step::Merge(c, t, f)) => {
                        let depth = st.frames.len();
                        let fr = st.frames.last().unwrap();
                        let blk = fr.blk;
                        let ip = self.m.funcs[fr.f].blocks[blk].ipdom;
                        let stop2 = (depth, ip.unwrap_or(usize::MAX));
                        let mut a = st.clone();
                        a.path.push(c);
                        let mut b = st.clone();
                        let nc = self.c.not(c);
                        b.path.push(nc);
                        let np = st.path.len();
                        let ra = self.branch_to(a, t, stop2)?;
                        let rb = self.branch_to(b, f, stop2)?;
                        if ra.len() == 1 && rb.len() == 1 {
                            let (a, b) = (ra.into_iter().next().unwrap(), rb.into_iter().next().unwrap());
                            match self.merge(c, a, b, np, stop2.1 != usize::MAX)? {
                                Ok(m) => {
                                    if stop == Some(stop2) {
                                        outs.push(m);
                                    } else {
                                        work.push(m);
                                    }
                                }
                                Err((a, b)) => {
                                    if stop == Some(stop2) {
                                        outs.push(a);
                                        outs.push(b);
                                    } else {
                                        work.push(b);
                                        work.push(a);
                                    }
                                }
                            }
                        } else {
                            for mut x in ra.into_iter().chain(rb.into_iter()) {
                                if stop == Some(stop2) {
                                    outs.push(x);
                                } else {
                                    if stop2.1 != usize::MAX {
                                        self.sync_in(&mut x);
                                        self.do_phis(&mut x)?;
                                    }
                                    work.push(x);
                                }
                            }
                        }
                        break;
                    }
                    Ok(Step::Cut(b)) => {
                        let (hi, _) = *b;
                        let r = self.do_cut(st, hi, stop)?;
                        outs.extend(r);
                        break;
                    }
                    Err(e) if e == "stop" => break,
                    Err(e) => {
                        let w = match st.frames.last() {
                            Some(f) => {
                                let fu = &self.m.funcs[f.f];
                                format!("{} [in {} {}:{}]", e, fu.name, fu.blocks[f.blk].name, f.ip)
                            }
                            None => e,
                        };
                        return Err(w);
                    }
                }
            }
        }
        Ok(outs)
    }
    pub fn sync_in(&mut self, st: &mut State) {
        // make the context use this path's ranges (extending with symbols created meanwhile)
        self.c.set_rng(&st.rng);
        if st.rng.len() < self.c.rng.len() {
            st.rng = self.c.rng.clone();
        }
    }
    fn branch_to(&mut self, mut st: State, blk: usize, stop: (usize, usize)) -> Res<Vec<State>> {
        self.sync_in(&mut st);
        match self.enter(&mut st, blk, Some(stop))? {
            Step::Stop => Ok(vec![st]),
            Step::Go => self.run(st, Some(stop)),
            Step::Dead => Ok(vec![]),
            Step::Cut(b) => self.do_cut(st, b.0, Some(stop)),
            _ => Err("branch_to".into()),
        }
    }
    fn do_phis(&mut self, st: &mut State) -> Res<()> {
        let (f, blk, prev) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk, fr.prev)
        };
        let m = self.m;
        let b = &m.funcs[f].blocks[blk];
        let mut vals = vec![];
        let mut i = 0;
        while i < b.insts.len() {
            if let I::Phi { inc, .. } = &b.insts[i].i {
                let (v, _) = inc.iter().find(|x| x.1 == prev).ok_or("phi edge")?;
                let n = self.opv(st, v)?;
                vals.push((b.insts[i].dst.unwrap(), n));
                i += 1;
            } else {
                break;
            }
        }
        let fr = st.fr();
        for (d, n) in vals {
            fr.regs[d as usize] = n;
        }
        fr.ip = i;
        Ok(())
    }
    /// transfer control to blk in the current frame
    fn enter(&mut self, st: &mut State, blk: usize, stop: Option<(usize, usize)>) -> Res<Step> {
        let depth = st.frames.len();
        {
            let fr = st.fr();
            fr.prev = fr.blk;
            fr.blk = blk;
            fr.ip = 0;
        }
        if stop == Some((depth, blk)) {
            return Ok(Step::Stop);
        }
        self.do_phis(st)?;
        self.header(st)
    }
    fn header(&mut self, st: &mut State) -> Res<Step> {
        let (f, blk) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk)
        };
        if !self.m.funcs[f].blocks[blk].loop_header {
            return Ok(Step::Go);
        }
        let depth = st.frames.len();
        if let Some(cut) = st.cuts.iter().rev().find(|c| c.depth == depth && c.blk == blk && c.g.frames.last().unwrap().f == f).cloned() {
            self.subsume(st, &cut)?;
            return Ok(Step::Dead);
        }
        let uf = st.ufork;
        let fr = st.frames.last().unwrap();
        let hi = fr.hist.iter().position(|h| h.0 == blk);
        match hi {
            None => {
                st.fr().hist.push((blk, uf, vec![]));
                Ok(Step::Go)
            }
            Some(hi) => {
                let last = fr.hist[hi].1;
                if uf > last {
                    let mut snap = st.clone();
                    for f in snap.frames.iter_mut() {
                        f.hist.clear();
                    }
                    let fr = st.fr();
                    fr.hist[hi].1 = uf;
                    fr.hist[hi].2.push(Rc::new(snap));
                    if fr.hist[hi].2.len() >= 3 {
                        return Ok(Step::Cut(Box::new((hi, 0))));
                    }
                } else {
                    let fr = st.fr();
                    fr.hist[hi].2.clear();
                }
                Ok(Step::Go)
            }
        }
    }
    fn step(&mut self, st: &mut State, stop: Option<(usize, usize)>) -> Res<Step> {
        let (f, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk, fr.ip)
        };
        let m = self.m;
        let inst = &m.funcs[f].blocks[blk].insts[ip];
        let mut res: Option<N> = None;
        match &inst.i {
            I::Alloca { size, count, .. } => {
                let mut sz = *size;
                if let Some(c) = count {
                    let n = self.opv(st, c)?;
                    sz *= self.c.cval(n).ok_or("alloca count")? as u64;
                }
                let o = st.new_obj(sz, OK::Stack, "local", self.uninit);
                st.fr().allocas.push(o);
                let w = self.pw();
                let z = self.c.c(w, 0);
                res = Some(self.c.ptr(o, z));
            }
            I::Load { ty, ptr } => {
                let p = self.opv(st, ptr)?;
                let rt = m.resolve(ty);
                let sz = m.store_size(rt);
                let p = self.c.norm_ptr(p);
                if let Ty::Struct(..) | Ty::Arr(..) = rt {
                    let rt = rt.clone();
                    let v = self.agg_load(st, p, &rt)?;
                    let fr = st.fr();
                    fr.regs[inst.dst.unwrap() as usize] = v;
                    fr.ip += 1;
                    return Ok(Step::Go);
                }
                match self.load(st, p, sz, *rt == Ty::Ptr)? {
                    Ok(n) => {
                        let n = match rt {
                            Ty::Int(w) if (*w as u64) < sz * 8 => self.c.trunc(n, *w),
                            Ty::F64 => self.bits_to_f(n)?,
                            Ty::F32 => return Err("float load".into()),
                            _ => n,
                        };
                        res = Some(n)
                    }
                    Err(v) => return Ok(Step::Fork(v)),
                }
            }
            I::Store { ty, val, ptr } => {
                let p = self.opv(st, ptr)?;
                let v = self.opv(st, val)?;
                let rt = m.resolve(ty);
                if let Ty::Struct(..) | Ty::Arr(..) = rt {
                    let rt = rt.clone();
                    let p = self.c.norm_ptr(p);
                    self.agg_store(st, p, v, &rt)?;
                    st.fr().ip += 1;
                    return Ok(Step::Go);
                }
                let sz = m.store_size(rt);
                let p = self.c.norm_ptr(p);
                if let Some(v) = self.store(st, p, v, sz)? {
                    return Ok(Step::Fork(v));
                }
            }
            I::Gep { base, steps, inbounds } => {
                let b = self.opv(st, base)?;
                let w = self.pw();
                let mut off = self.c.c(w, 0);
                for s in steps {
                    match s {
                        GepStep::Const(k) => {
                            let n = self.c.c(w, *k as u128);
                            off = self.c.add(off, n);
                        }
                        GepStep::Scaled(op, _t, k) => {
                            let i = self.opv(st, op)?;
                            let i = if self.c.w(i) < w { self.c.sext(i, w) } else { self.c.trunc(i, w) };
                            let kn = self.c.c(w, *k as u128);
                            let x = self.c.mul(i, kn);
                            off = self.c.add(off, x);
                        }
                    }
                }
                let nd = self.c.nd(b).clone();
                if nd.o == O::Ptr {
                    let no = self.c.add(nd.a[0], off);
                    if *inbounds {
                        self.gep_check(st, nd.imm as u32, no)?;
                    }
                    res = Some(self.c.ptr(nd.imm as u32, no));
                } else if nd.o == O::Const && nd.imm == 0 && self.c.cval(off) == Some(0) {
                    res = Some(b);
                } else if nd.o == O::Const && *inbounds {
                    let z = self.c.c(w, 0);
                    let e = self.c.eq(off, z);
                    if let Some(v) = self.fork_cond(st, e)? {
                        return Ok(Step::Fork(v));
                    }
                    if self.c.cval(e) == Some(1) {
                        res = Some(b);
                    } else {
                        self.fail(st, "null-pointer-arithmetic", format!("null + {}", self.c.show(off, 2)), self.c.cval(off).is_some());
                        return Err("stop".into());
                    }
                } else if nd.o == O::Undef {
                    res = Some(b);
                } else {
                    res = Some(self.c.add(b, off));
                }
            }
            I::Bin { op, ty, a, b, nuw, nsw, .. } => {
                let x = self.opv(st, a)?;
                let y = self.opv(st, b)?;
                match op {
                    Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv => {
                        let (xi, yi) = (self.fint(x)?, self.fint(y)?);
                        if xi.0 != xi.1 || yi.0 != yi.1 {
                            if *m.resolve(ty) == Ty::F32 {
                                return Err("symbolic float".into());
                            }
                            let r = match op {
                                Bin::FAdd => (xi.0 + yi.0, xi.1 + yi.1),
                                Bin::FSub => (xi.0 - yi.1, xi.1 - yi.0),
                                Bin::FMul if xi.0 >= 0.0 && yi.0 >= 0.0 => (xi.0 * yi.0, xi.1 * yi.1),
                                Bin::FDiv if yi.0 == yi.1 && yi.0 > 0.0 => (xi.0 / yi.0, xi.1 / yi.0),
                                _ => return Err("symbolic floating point".into()),
                            };
                            let n = self.mkint(r.0, r.1)?;
                            let d = inst.dst.unwrap();
                            st.fr().regs[d as usize] = n;
                            st.fr().ip += 1;
                            return Ok(Step::Go);
                        }
                        let (p, q) = (self.fval(x)?, self.fval(y)?);
                        let r = match op {
                            Bin::FAdd => p + q,
                            Bin::FSub => p - q,
                            Bin::FMul => p * q,
                            _ => p / q,
                        };
                        let r = if *m.resolve(ty) == Ty::F32 { (r as f32) as f64 } else { r };
                        res = Some(self.f64(r));
                    }
                    _ => {
                        let (x, y) = (self.c.norm(x), self.c.norm(y));
                        if self.c.op(x) == O::Undef || self.c.op(y) == O::Undef {
                            let w = self.c.w(x);
                            res = Some(self.c.undef(w));
                        } else {
                            if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && self.c.op(x) == O::Lin {
                                if let Some(d) = self.c.cval(y).filter(|d| *d < 1 << 40) {
                                    if let Some((s, pts)) = self.c.divrem_split(x, d as i128) {
                                        return Ok(Step::Fork(self.split(st, s, &pts)));
                                    }
                                }
                            }
                            res = Some(self.binop(st, *op, x, y, *nuw, *nsw)?);
                        }
                    }
                }
            }
            I::FNeg { a } => {
                let x = self.opv(st, a)?;
                let v = self.fval(x)?;
                res = Some(self.f64(-v));
            }
            I::ICmp { pred, a, b, .. } => {
                let x = self.opv(st, a)?;
                let y = self.opv(st, b)?;
                res = Some(self.icmp(*pred, x, y)?);
            }
            I::FCmp { pred, a, b } => {
                let x = self.opv(st, a)?;
                let y = self.opv(st, b)?;
                let (xi, yi) = (self.fint(x)?, self.fint(y)?);
                if xi.0 != xi.1 || yi.0 != yi.1 {
                    let lt = xi.1 < yi.0;
                    let gt = xi.0 > yi.1;
                    let r = match pred.as_str() {
                        "oeq" | "ueq" if lt || gt => false,
                        "une" | "one" if lt || gt => true,
                        "olt" | "ult" if lt || xi.0 >= yi.1 => lt,
                        "ole" | "ule" if gt || xi.1 <= yi.0 => !gt,
                        "ogt" | "ugt" if gt || xi.1 <= yi.0 => gt,
                        "oge" | "uge" if lt || xi.0 >= yi.1 => !lt,
                        _ => return Err("symbolic float: comparison not constant over the range".into()),
                    };
                    let d = inst.dst.unwrap();
                    let n = self.c.c(1, r as u128);
                    st.fr().regs[d as usize] = n;
                    st.fr().ip += 1;
                    return Ok(Step::Go);
                }
                let (p, q) = (xi.0, yi.0);
                let r = match pred.as_str() {
                    "oeq" => p == q,
                    "une" => p != q,
                    "olt" => p < q,
                    "ole" => p <= q,
                    "ogt" => p > q,
                    "oge" => p >= q,
                    _ => return Err("fcmp".into()),
                };
                res = Some(self.c.c(1, r as u128));
            }
            I::Select { c, a, b } => {
                let c = self.opv(st, c)?;
                let x = self.opv(st, a)?;
                let y = self.opv(st, b)?;
                let c = self.renorm(c);
                if self.c.op(c) == O::Undef {
                    self.fail(st, "uninitialised-read", "select on an uninitialised value".into(), true);
                    return Err("stop".into());
                }
                if self.c.cval(c).is_none() {
                    if self.affine_cond(c) {
                        if let Some(v) = self.fork_cond(st, c)? {
                            return Ok(Step::Fork(v));
                        }
                    }
                    let bad = |o: O| matches!(o, O::Ptr | O::F64 | O::Agg | O::Fn);
                    if x != y && (bad(self.c.op(x)) || bad(self.c.op(y))) {
                        // pointer-valued select on a data condition: split the path
                        let mut s1 = st.clone();
                        let mut s2 = st.clone();
                        let nc = self.c.not(c);
                        s1.path.push(c);
                        s2.path.push(nc);
                        s1.fr().regs[inst.dst.unwrap() as usize] = x;
                        s2.fr().regs[inst.dst.unwrap() as usize] = y;
                        s1.fr().ip += 1;
                        s2.fr().ip += 1;
                        return Ok(Step::Fork(vec![s1, s2]));
                    }
                }
                res = Some(self.c.ite(c, x, y));
            }
            I::Phi { .. } => return Err("phi in the middle".into()),
            I::Cast { op, from, a, to } => {
                let x = self.opv(st, a)?;
                let tw = match m.resolve(to) {
                    Ty::Int(w) => *w,
                    Ty::Ptr => self.pw(),
                    _ => 64,
                };
                let _ = from;
                res = Some(match op {
                    Cast::ZExt | Cast::SExt | Cast::Trunc => {
                        let x = self.c.norm(x);
                        if self.c.op(x) == O::Undef {
                            self.c.undef(tw)
                        } else {
                            match op {
                                Cast::ZExt => self.c.zext(x, tw),
                                Cast::SExt => self.c.sext(x, tw),
                                _ => self.c.trunc(x, tw),
                            }
                        }
                    }
                    Cast::BitCast => x,
                    Cast::PtrToInt => {
                        let i = self.ptr_to_int(x)?;
                        self.sync_in(st);
                        if tw <= self.c.w(i) { self.c.trunc(i, tw) } else { self.c.zext(i, tw) }
                    }
                    Cast::IntToPtr => self.int_to_ptr(x)?,
                    Cast::UIToFP => {
                        match self.c.cval(x) {
                            Some(v) => self.f64(v as f64),
                            None => {
                                if *m.resolve(to) == Ty::F32 {
                                    return Err("symbolic float".into());
                                }
                                self.sync_in(st);
                                let (lo, hi) = self.c.urange(x, 8);
                                self.mkint(lo as f64, hi as f64)?
                            }
                        }
                    }
                    Cast::SIToFP => {
                        let v = self.c.cval(x).ok_or("symbolic sitofp")?;
                        let w = self.c.w(x);
                        self.f64(sext(v, w) as f64)
                    }
                    Cast::FPToUI | Cast::FPToSI => {
                        let (v, v1) = self.fint(x)?;
                        let t = v.trunc();
                        if t != v1.trunc() {
                            return Err("symbolic float: truncation not constant over the range".into());
                        }
                        let (lo, hi) = if *op == Cast::FPToUI { (0.0, (2f64).powi(tw as i32)) } else { (-(2f64).powi(tw as i32 - 1), (2f64).powi(tw as i32 - 1)) };
                        if !(t >= lo && t < hi) || v.is_nan() {
                            self.fail(st, "float-cast-overflow", format!("{} to {} bits", v, tw), true);
                            return Err("stop".into());
                        }
                        let d = v - t;
                        if d > 1e-6 && d < 1.0 - 1e-6 {
                            self.ok("float-truncation-robust", st, 7);
                        } else if d != 0.0 {
                            self.assumptions.insert("a floating-point value within 1e-6 of an integer is truncated (depends on libm rounding)".into());
                        }
                        self.c.c(tw, t as i128 as u128)
                    }
                    Cast::FPExt | Cast::FPTrunc => {
                        let v = self.fval(x)?;
                        if *op == Cast::FPTrunc {
                            self.f64(v as f32 as f64)
                        } else {
                            self.f64(v)
                        }
                    }
                });
            }
            I::ExtractValue { agg, idx } => {
                let mut x = self.opv(st, agg)?;
                for i in idx {
                    if self.c.op(x) != O::Agg {
                        return Err("extractvalue".into());
                    }
                    x = self.c.args(x)[*i];
                }
                res = Some(x);
            }
            I::InsertValue { aty, agg, val, idx } => {
                let mut x = self.opv(st, agg)?;
                if self.c.op(x) == O::Undef {
                    x = self.undef_ty(aty);
                }
                let v = self.opv(st, val)?;
                if idx.len() != 1 || self.c.op(x) != O::Agg {
                    return Err("insertvalue".into());
                }
                let mut l = self.c.args(x);
                l[idx[0]] = v;
                res = Some(self.c.agg(l));
            }
            I::Freeze { a } => res = Some(self.opv(st, a)?),
            I::Br { t } => return self.enter(st, *t, stop),
            I::CondBr { c, t, f: fb } => {
                let c = self.opv(st, c)?;
                let c = self.renorm(c);
                if self.c.op(c) == O::Undef {
                    self.fail(st, "uninitialised-read", "branch on an uninitialised value".into(), true);
                    return Err("stop".into());
                }
                match self.c.cval(c) {
                    Some(1) => return self.enter(st, *t, stop),
                    Some(_) => return self.enter(st, *fb, stop),
                    None => {}
                }
                if self.affine_cond(c) {
                    if let Some(v) = self.fork_cond(st, c)? {
                        return Ok(Step::Fork(v));
                    }
                }
                let fu = &m.funcs[f];
                let (dt, df) = (fu.blocks[*t].doomed, fu.blocks[*fb].doomed);
                if dt != df {
                    // one side is an assertion failure / throw: prove it cannot be taken
                    let g = if dt { self.c.not(c) } else { c };
                    let path = st.path.clone();
                    let (v, _) = self.c.decide_true(g, &path);
                    if v == Verdict::Proved {
                        self.ok("assertion", st, 2);
                    } else {
                        let msg = format!("condition guarding a failing branch not provable: {}", self.c.show(g, 4));
                        self.fail(st, "assertion", msg, v == Verdict::Refuted && !self.c.tainted(g));
                    }
                    return self.enter(st, if dt { *fb } else { *t }, stop);
                }
                return Ok(Step::Merge(c, *t, *fb));
            }
            I::Switch { v, def, cases, .. } => {
                let x = self.opv(st, v)?;
                let x = self.c.norm(x);
                match self.c.cval(x) {
                    Some(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        return self.enter(st, t, stop);
                    }
                    None => {
                        if self.c.op(x) == O::Lin {
                            return Ok(Step::Fork(self.pin(st, x)?));
                        }
                        // data-dependent switch: split the path over the cases
                        let mut out = vec![];
                        let w = self.c.w(x);
                        let mut rest = st.clone();
                        for (k, t) in cases {
                            let kn = self.c.c(w, *k);
                            let e = self.c.eq(x, kn);
                            if self.c.cval(e) == Some(0) {
                                continue;
                            }
                            let mut s = st.clone();
                            s.path.push(e);
                            let ne = self.c.not(e);
                            rest.path.push(ne);
                            match self.enter(&mut s, *t, None)? {
                                Step::Go => out.push(s),
                                _ => return Err("switch into loop".into()),
                            }
                        }
                        if !m.funcs[f].blocks[*def].doomed {
                            match self.enter(&mut rest, *def, None)? {
                                Step::Go => out.push(rest),
                                _ => return Err("switch into loop".into()),
                            }
                        }
                        return Ok(Step::Fork(out));
                    }
                }
            }
            I::Ret { v } => {
                let rv = match v {
                    Some(v) => Some(self.opv(st, v)?),
                    None => None,
                };
                return self.ret(st, rv, stop);
            }
            I::Unreachable => {
                self.fail(st, "unreachable-reached", "control reaches an unreachable point".into(), true);
                return Ok(Step::Dead);
            }
            I::LandingPad { cleanup, catches, filter } => {
                let x = match (&self.cli, st.gh.as_ref().and_then(|g| g.exc.clone())) {
                    (Some(_), Some(x)) if !filter => x,
                    _ => return Err("exceptional path executed".into()),
                };
                res = Some(self.landing(st, &x, catches, *cleanup)?);
            }
            I::Resume => {
                if self.cli.is_none() {
                    return Err("exceptional path executed".into());
                }
                return self.unwind(st, true);
            }
            I::Call { callee, args, ret, normal, noreturn, .. } => {
                let fid = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ind(op) => {
                        let n = self.opv(st, op)?;
                        if self.c.op(n) == O::Fn {
                            self.c.nd(n).imm as usize
                        } else {
                            return Err("indirect call through unknown pointer".into());
                        }
                    }
                };
                let mut av = vec![];
                for (a, _, _) in args {
                    let v = self.opv(st, a)?;
                    av.push(self.c.norm_ptr(v));
                }
                let fu = &m.funcs[fid];
                if let Some(h) = self.hooks.get(&fid).cloned() {
                    self.funcs_seen.insert(fid);
                    if let HookAct::Cli(k, arg) = &h.act {
                        return self.cli_call(st, *k, *arg, fid, &av, inst.dst, *normal, stop);
                    }
                    let mut rec = vec![];
                    if h.tag != 0 {
                        rec.push(self.c.c(32, h.tag as u128));
                    }
                    let pb = (self.pw() / 8) as u64;
                    for (i, v) in av.iter().enumerate() {
                        match fu.byval[i] {
                            Some(sz) => {
                                let nd = self.c.nd(*v).clone();
                                let so = self.c.cval(nd.a[0]).ok_or("byval offset")? as u64;
                                for x in 0..sz / pb {
                                    let x = self.get(st, nd.imm as u32, so + x * pb, pb)?;
                                    rec.push(self.c.norm_ptr(x));
                                }
                            }
                            None => rec.push(*v),
                        }
                    }
                    if (h.tag == 0 || matches!(h.act, HookAct::Bytes)) && av.len() == 2 && fu.byval[1].is_none() && self.c.op(av[1]) == O::Ptr {
                        // a span handed over by reference to a copy: record what it holds
                        let nd = self.c.nd(av[1]).clone();
                        let off = self.c.cval(nd.a[0]).ok_or("span offset")? as u64;
                        rec.pop();
                        for x in 0..2 {
                            let v = self.get(st, nd.imm as u32, off + x * pb, pb)?;
                            rec.push(self.c.norm_ptr(v));
                        }
                    }
                    let ret = match &h.act {
                        HookAct::Receiver => av.first().copied(),
                        HookAct::Bytes => {
                            // the bytes handed over, if they are in local memory
                            let p = rec[2..].iter().position(|x| self.c.op(*x) == O::Ptr);
                            if let Some(p) = p {
                                let p = p + 2;
                                let l = if p == 2 { rec[3] } else { rec[2] };
                                let nd = self.c.nd(rec[p]).clone();
                                let len = self.c.cval(l);
                                let ob = &st.objs[nd.imm as usize];
                                if let (Some(len), Some(off), false) = (len, self.c.cval(nd.a[0]), matches!(ob.kind, OK::Region(_))) {
                                    if len <= 1 << 20 {
                                        if !ob.alive || off as u64 + len as u64 > ob.size {
                                            self.fail(st, "memory-read-in-bounds", "the range passed on exceeds its object".into(), true);
                                            return Err("stop".into());
                                        }
                                        let (o, off) = (nd.imm as u32, off as u64);
                                        for i in 0..len as u64 {
                                            let c = st.objs[o as usize].get(off + i);
                                            let b = self.byte_of(c).unwrap_or(self.uninit);
                                            rec.push(b);
                                        }
                                    }
                                }
                            }
                            av.first().copied()
                        }
                        HookAct::Strings(ix) => {
                            for i in ix {
                                let (nd, pb) = (self.c.nd(av[*i]).clone(), pb);
                                if nd.o != O::Ptr {
                                    continue;
                                }
                                let off = self.c.cval(nd.a[0]).ok_or("string offset")? as u64;
                                let p = self.get(st, nd.imm as u32, off, pb)?;
                                let p = self.c.norm_ptr(p);
                                if self.c.op(p) != O::Ptr {
                                    rec.push(self.c.c(32, 0x4fff_ffff));
                                    continue;
                                }
                                let l = self.get(st, nd.imm as u32, off + pb, pb)?;
                                let (p, l) = (self.c.nd(p).clone(), self.c.cval(l).ok_or("string length")? as u64);
                                let off = self.c.cval(p.a[0]).ok_or("string data")? as u64;
                                rec.push(self.c.c(32, 0x5000_0000 + l as u128));
                                for i in 0..l {
                                    let c = st.objs[p.imm as usize].get(off + i);
                                    let b = self.byte_of(c).unwrap_or(self.uninit);
                                    rec.push(b);
                                }
                            }
                            None
                        }
                        HookAct::Value(n) => Some(*n),
                        HookAct::Cli(..) => None,
                        HookAct::Vector(data, size) => {
                            // std::vector<unsigned char> {begin, end, end of storage} through sret
                            let nd = self.c.nd(av[0]).clone();
                            let o = st.new_obj(data.len() as u64, OK::Heap, "heap", self.uninit);
                            for (i, b) in data.iter().enumerate() {
                                st.obj_mut(o).set(i as u64, Cell { n: *b, k: 0 });
                            }
                            let w = self.pw();
                            let z = self.c.c(w, 0);
                            let b = self.c.ptr(o, z);
                            let e = self.c.ptr(o, *size);
                            let off = self.c.cval(nd.a[0]).ok_or("sret")? as u64;
                            for (i, v) in [b, e, e].into_iter().enumerate() {
                                self.put(st, nd.imm as u32, off + pb * i as u64, v, pb);
                            }
                            None
                        }
                        HookAct::String(data) => {
                            let nd = self.c.nd(av[0]).clone();
                            let n = data.len() as u64;
                            let off = self.c.cval(nd.a[0]).ok_or("sret")? as u64;
                            let w = self.pw();
                            let (o, base) = if n > 15 {
                                (st.new_obj(n + 1, OK::Heap, "heap", self.uninit), 0)
                            } else {
                                (nd.imm as u32, off + 2 * pb)
                            };
                            for (i, b) in data.iter().enumerate() {
                                st.obj_mut(o).set(base + i as u64, Cell { n: *b, k: 0 });
                            }
                            let zb = self.c.c(8, 0);
                            st.obj_mut(o).set(base + n, Cell { n: zb, k: 0 });
                            let bn = self.c.c(w, base as u128);
                            let p = self.c.ptr(o, bn);
                            self.put(st, nd.imm as u32, off, p, pb);
                            let l = self.c.c(w, n as u128);
                            self.put(st, nd.imm as u32, off + pb, l, pb);
                            if n > 15 {
                                self.put(st, nd.imm as u32, off + 2 * pb, l, pb);
                            }
                            None
                        }
                    };
                    st.calls.push(rec);
                    if let (Some(d), Some(v)) = (inst.dst, ret) {
                        st.fr().regs[d as usize] = v;
                    }
                    if let Some(nb) = normal {
                        return self.enter(st, *nb, stop);
                    }
                    st.fr().ip += 1;
                    return Ok(Step::Go);
                }
                if !fu.decl {
                    st.fr().ip += 1;
                    self.push_frame(st, fid, av, inst.dst, *normal)?;
                    // entry block may itself be a loop header (rare); no phis there
                    return Ok(Step::Go);
                }
                let nr = *noreturn || fu.noreturn;
                match self.external(st, &fu.name, &av, ret, nr)? {
                    Ext::Val(v) => {
                        res = v;
                        if let Some(nb) = normal {
                            if let (Some(d), Some(v)) = (inst.dst, res) {
                                st.fr().regs[d as usize] = v;
                            }
                            return self.enter(st, *nb, stop);
                        }
                    }
                    Ext::Fork(v) => return Ok(Step::Fork(v)),
                    Ext::Dead => return Ok(Step::Dead),
                }
            }
        }
        let fr = st.fr();
        if let (Some(d), Some(v)) = (inst.dst, res) {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
        Ok(Step::Go)
    }
    fn bits_to_f(&mut self, n: N) -> Res<N> {
        match self.c.op(n) {
            O::F64 => Ok(n),
            O::Const => {
                let v = self.c.cval(n).unwrap();
                Ok(self.f64(f64::from_bits(v as u64)))
            }
            _ => Err("symbolic double".into()),
        }
    }
    fn ret(&mut self, st: &mut State, rv: Option<N>, stop: Option<(usize, usize)>) -> Res<Step> {
        let depth = st.frames.len();
        let fr = st.frames.pop().unwrap();
        for o in &fr.allocas {
            let ob = Rc::make_mut(&mut st.objs[*o as usize]);
            ob.alive = false;
            ob.cells.clear();
        }
        // compact dead objects at the tail
        while let Some(o) = st.objs.last() {
            if !o.alive && o.kind == OK::Stack {
                st.objs.pop();
            } else {
                break;
            }
        }
        st.cuts.retain(|c| c.depth < depth);
        st.ret = rv;
        if let (Some(d), Some(v)) = (fr.dst, rv) {
            if let Some(p) = st.frames.last_mut() {
                p.regs[d as usize] = v;
            }
        }
        if let Some(nb) = fr.normal {
            // continue at the normal destination (fr.ip of the caller already advanced)
            if stop == Some((depth, usize::MAX)) {
                let caller = st.fr();
                caller.prev = caller.blk;
                caller.blk = nb;
                caller.ip = 0;
                // phis at an invoke continuation are evaluated here
                self.do_phis(st)?;
                return Ok(Step::Stop);
            }
            return self.enter(st, nb, stop);
        }
        if stop == Some((depth, usize::MAX)) {
            return Ok(Step::Stop);
        }
        if st.frames.is_empty() {
            return Ok(Step::Done);
        }
        Ok(Step::Go)
    }
    fn gep_check(&mut self, st: &mut State, o: u32, off: N) -> Res<()> {
        let ob = &st.objs[o as usize];
        let w = self.pw();
        let (szn, osz) = (ob.szn, ob.size);
        let alive = ob.alive;
        if !alive {
            self.fail(st, "use-after-free", "pointer arithmetic on a dead object".into(), true);
            return Err("stop".into());
        }
        let s = match szn {
            Some(s) => s,
            None => self.c.c(w, osz as u128),
        };
        if let Some(v) = self.c.cval(off) {
            if szn.is_none() {
                if v > osz as u128 {
                    let msg = format!("pointer to offset {} of {} (size {})", sext(v, w), st.objs[o as usize].name, osz);
                    self.fail(st, "pointer-out-of-bounds", msg, true);
                    return Err("stop".into());
                }
                self.ok("pointer-in-bounds", st, 3);
                return Ok(());
            }
        }
        let mut bad = self.c.ult(s, off);
        if st.objs[o as usize].lo > 0 {
            let l = self.c.c(w, st.objs[o as usize].lo as u128);
            let b2 = self.c.ult(off, l);
            bad = self.c.or(bad, b2);
        }
        if self.c.cval(bad) == Some(0) {
            self.ok("pointer-in-bounds", st, 3);
            return Ok(());
        }
        if self.c.op(off) == O::Lin {
            let definite = self.c.cval(bad) == Some(1);
            // for fixed-size objects an affine offset is concretised at the access; accept if some value is fine
            if szn.is_none() && !definite {
                return Ok(());
            }
            let msg = format!("pointer to {} of {} (size {})", self.c.show(off, 6), st.objs[o as usize].name, self.c.show(s, 2));
            self.fail(st, "pointer-out-of-bounds", msg, definite);
            return Err("stop".into());
        }
        let (_, hi) = self.c.urange(off, 6);
        if hi <= osz as u128 {
            self.ok("pointer-in-bounds", st, 3);
            return Ok(());
        }
        let g = self.c.not(bad);
        let path = st.path.clone();
        let (v, _) = self.c.decide_true(g, &path);
        if v == Verdict::Proved {
            self.ok("pointer-in-bounds", st, 3);
            return Ok(());
        }
        self.fail(st, "pointer-out-of-bounds", format!("{}", self.c.show(off, 4)), v == Verdict::Refuted);
        Err("stop".into())
    }
    fn binop(&mut self, st: &State, op: Bin, x: N, y: N, nuw: bool, nsw: bool) -> Res<N> {
        let w = self.c.w(x);
        let (x, y) = (self.ptr_as_int(x)?, self.ptr_as_int(y)?);
        if nsw && matches!(op, Bin::Add | Bin::Sub | Bin::Mul) {
            if !self.nsw_ok(op, x, y, w) {
                self.overflow_goal(st, op, x, y, w, true)?;
            } else {
                self.ok("no-signed-overflow", st, 4);
            }
        }
        if nuw && matches!(op, Bin::Add | Bin::Sub | Bin::Mul) {
            let (a, b) = (self.c.urange(x, 4), self.c.urange(y, 4));
            let good = match op {
                Bin::Add => a.1.checked_add(b.1).map_or(false, |v| v <= ones(w)),
                Bin::Sub => a.0 >= b.1,
                _ => a.1.checked_mul(b.1).map_or(false, |v| v <= ones(w)),
            };
            if !good {
                self.overflow_goal(st, op, x, y, w, false)?;
            }
        }
        if matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) {
            let (_, hi) = self.c.urange(y, 4);
            if hi >= w as u128 {
                let d = self.c.cval(y).is_some();
                self.fail(st, "shift-amount", format!("shift of a {}-bit value by {}", w, self.c.show(y, 2)), d);
                return Err("stop".into());
            }
            self.ok("shift-amount", st, 5);
            if op == Bin::Shl && nsw {
                let (lo, hi) = self.c.srange(x, 4);
                let s = self.c.urange(y, 4).1 as u32;
                if lo < 0 || hi.checked_mul(1i128 << s.min(100)).map_or(true, |v| v >= (1i128 << (w - 1))) {
                    self.fail(st, "signed-shift-overflow", format!("shl nsw {}", self.c.show(x, 2)), false);
                }
            }
        }
        if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
            match self.c.cval(y) {
                Some(0) => {
                    self.fail(st, "division-by-zero", "".into(), true);
                    return Err("stop".into());
                }
                Some(_) => {}
                None => {
                    let (lo, _) = self.c.urange(y, 4);
                    if lo == 0 {
                        self.fail(st, "division-by-zero", format!("divisor {}", self.c.show(y, 2)), false);
                    }
                }
            }
        }
        Ok(match op {
            Bin::Add => self.c.add(x, y),
            Bin::Sub => self.c.sub(x, y),
            Bin::Mul => self.c.mul(x, y),
            Bin::UDiv => self.c.udiv(x, y),
            Bin::SDiv => self.c.sdiv(x, y),
            Bin::URem => self.c.urem(x, y),
            Bin::SRem => self.c.srem(x, y),
            Bin::Shl => self.c.shl(x, y),
            Bin::LShr => self.c.lshr(x, y),
            Bin::AShr => self.c.ashr(x, y),
            Bin::And => self.c.and(x, y),
            Bin::Or => self.c.or(x, y),
            Bin::Xor => self.c.xor(x, y),
            _ => return Err("binop".into()),
        })
    }
    fn ptr_as_int(&mut self, n: N) -> Res<N> {
        if self.c.op(n) == O::Ptr {
            return self.ptr_to_int(n);
        }
        Ok(n)
    }
    fn nsw_ok(&self, op: Bin, x: N, y: N, w: u32) -> bool {
        // affine operands: exact
        if let (Some((a, _, _)), Some((b, _, _))) = (self.c.lin_signed(x), self.c.lin_signed(y)) {
            let r = match op {
                Bin::Add => Some(Ctx::lin_add(&a, &b, 1)),
                Bin::Sub => Some(Ctx::lin_add(&a, &b, -1)),
                _ => {
                    if b.t.is_empty() {
                        Some(Ctx::lin_add(&Lin::default(), &a, b.c))
                    } else if a.t.is_empty() {
                        Some(Ctx::lin_add(&Lin::default(), &b, a.c))
                    } else {
                        None
                    }
                }
            };
            if let Some(r) = r {
                if let Some((lo, hi)) = self.c.lin_rng(&r) {
                    let m = 1i128 << (w - 1).min(126);
                    return lo >= -m && hi < m;
                }
            }
        }
        let a = self.c.srange(x, 6);
        let b = self.c.srange(y, 6);
        let m = 1i128 << (w - 1).min(126);
        let r = match op {
            Bin::Add => (a.0.checked_add(b.0), a.1.checked_add(b.1)),
            Bin::Sub => (a.0.checked_sub(b.1), a.1.checked_sub(b.0)),
            _ => {
                let v = [a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)];
                if v.iter().any(|x| x.is_none()) {
                    return false;
                }
                let v: Vec<i128> = v.iter().map(|x| x.unwrap()).collect();
                (v.iter().min().cloned(), v.iter().max().cloned())
            }
        };
        match r {
            (Some(lo), Some(hi)) => lo >= -m && hi < m,
            _ => false,
        }
    }
    fn overflow_goal(&mut self, st: &State, op: Bin, x: N, y: N, w: u32, signed: bool) -> Res<()> {
        // exact goal in a wider width
        if w <= 62 {
            let w2 = 2 * w;
            let (a, b) = if signed { (self.c.sext(x, w2), self.c.sext(y, w2)) } else { (self.c.zext(x, w2), self.c.zext(y, w2)) };
            let r = match op {
                Bin::Add => self.c.add(a, b),
                Bin::Sub => self.c.sub(a, b),
                _ => self.c.mul(a, b),
            };
            let t = self.c.trunc(r, w);
            let e = if signed { self.c.sext(t, w2) } else { self.c.zext(t, w2) };
            let g = self.c.eq(r, e);
            let path = st.path.clone();
            let (v, _) = self.c.decide_true(g, &path);
            if v == Verdict::Proved {
                self.ok("no-signed-overflow", st, 4);
                return Ok(());
            }
            let d = v == Verdict::Refuted && !self.c.tainted(g);
            self.fail(st, if signed { "signed-overflow" } else { "unsigned-overflow" }, format!("{:?} {} {}", op, self.c.show(x, 2), self.c.show(y, 2)), d);
            return Ok(());
        }
        let d = self.c.cval(x).is_some() && self.c.cval(y).is_some();
        self.fail(st, if signed { "signed-overflow" } else { "unsigned-overflow" }, format!("{:?} {} {}", op, self.c.show(x, 2), self.c.show(y, 2)), d);
        Ok(())
    }
    /// re-evaluate a boolean built from affine comparisons under the current ranges
    pub fn renorm(&mut self, c: N) -> N {
        let nd = self.c.nd(c).clone();
        match nd.o {
            O::Eq | O::Ult | O::Slt => {
                if self.c.as_lin(nd.a[0]).is_some() && self.c.as_lin(nd.a[1]).is_some() {
                    let (a, b) = (self.c.norm(nd.a[0]), self.c.norm(nd.a[1]));
                    return match nd.o {
                        O::Eq => self.c.eq(a, b),
                        O::Ult => self.c.ult(a, b),
                        _ => self.c.slt(a, b),
                    };
                }
                c
            }
            O::And | O::Or | O::Xor if nd.w == 1 => {
                let (a, b) = (self.renorm(nd.a[0]), self.renorm(nd.a[1]));
                match nd.o {
                    O::And => self.c.and(a, b),
                    O::Or => self.c.or(a, b),
                    _ => self.c.xor(a, b),
                }
            }
            _ => c,
        }
    }
    fn affine_cond(&self, c: N) -> bool {
        let nd = self.c.nd(c);
        match nd.o {
            O::Eq | O::Ult | O::Slt => self.c.as_lin(nd.a[0]).is_some() && self.c.as_lin(nd.a[1]).is_some(),
            O::And | O::Or | O::Xor if nd.w == 1 => self.affine_cond(nd.a[0]) && (self.affine_cond(nd.a[1]) || self.c.cval(nd.a[1]).is_some()) || (self.c.cval(nd.a[0]).is_some() && self.affine_cond(nd.a[1])),
            _ => false,
        }
    }
    /// split the path so that an affine condition gets closer to being decided; None if impossible
    fn fork_cond(&mut self, st: &State, c: N) -> Res<Option<Vec<State>>> {
        let nd = self.c.nd(c).clone();
        match nd.o {
            O::And | O::Or | O::Xor => {
                for a in [nd.a[0], nd.a[1]] {
                    let a2 = self.renorm(a);
                    if self.c.cval(a2).is_none() {
                        return self.fork_cond(st, a2);
                    }
                }
                Ok(None)
            }
            O::Eq | O::Ult | O::Slt => {
                let forms = |s: &Ctx, n: N| -> Option<Lin> {
                    if nd.o == O::Slt {
                        s.lin_signed(n).map(|x| x.0)
                    } else {
                        s.lin_unsigned(n).or_else(|| if nd.o == O::Eq { s.lin_signed(n) } else { None }).map(|x| x.0)
                    }
                };
                let (x, y) = match (forms(&self.c, nd.a[0]), forms(&self.c, nd.a[1])) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(None),
                };
                let d = Ctx::lin_add(&x, &y, -1); // cond: d<0 (or d==0)
                if d.t.is_empty() {
                    return Ok(None);
                }
                let size = |s: u32| st.rng[s as usize].1 - st.rng[s as usize].0;
                // choose the variable with the largest coefficient (ties: larger range)
                let (s, k) = *d.t.iter().max_by_key(|t| (t.1.abs(), size(t.0))).unwrap();
                let (lo, hi) = st.rng[s as usize];
                if lo == hi {
                    return Ok(None);
                }
                // range of the rest
                let mut rest = d.clone();
                rest.t.retain(|t| t.0 != s);
                let (rlo, rhi) = self.c.lin_rng(&rest).ok_or("range overflow")?;
                let mut cutpts: Vec<i128> = vec![]; // split before these values
                let fl = |a: i128, b: i128| a.div_euclid(b);
                if nd.o == O::Eq {
                    // k*s + rest == 0
                    if rest.t.is_empty() {
                        if (-rest.c) % k == 0 {
                            let v = -rest.c / k;
                            cutpts.push(v);
                            cutpts.push(v + 1);
                        } else {
                            return Ok(None);
                        }
                    } else {
                        // values of s for which equality is possible: -rhi <= k*s <= -rlo
                        let (a, b) = if k > 0 { (fl(-rhi + k - 1, k), fl(-rlo, k) + 1) } else { (fl(rlo + (-k) - 1, -k), fl(rhi, -k) + 1) };
                        cutpts.push(a);
                        cutpts.push(b);
                        if a <= lo && b > hi {
                            cutpts = vec![lo + 1];
                        }
                    }
                } else {
                    // k*s + rest < 0
                    // definitely true when k*s + rhi < 0 ; definitely false when k*s + rlo >= 0
                    if k > 0 {
                        let t = fl(-rhi - 1, k) + 1; // s < t => true
                        let f = fl(-rlo + k - 1, k); // s >= f => false
                        cutpts.push(t);
                        cutpts.push(f);
                    } else {
                        let kk = -k;
                        // -kk*s + rhi < 0 <=> s > rhi/kk
                        let t = fl(rhi, kk) + 1;
                        // -kk*s + rlo >= 0 <=> s <= rlo/kk
                        let f = fl(rlo, kk) + 1;
                        cutpts.push(f);
                        cutpts.push(t);
                    }
                }
                let mut pts: Vec<i128> = cutpts.into_iter().filter(|p| *p > lo && *p <= hi).collect();
                pts.sort();
                pts.dedup();
                if pts.is_empty() {
                    // split another variable
                    let mut done = None;
                    for (s2, _) in d.t.iter() {
                        let (l2, h2) = st.rng[*s2 as usize];
                        if l2 < h2 && h2 - l2 <= 4096 {
                            done = Some((*s2, vec![l2 + 1]));
                            break;
                        }
                    }
                    match done {
                        Some((s2, p)) => return Ok(Some(self.split(st, s2, &p))),
                        None => return Err(format!("cannot decide affine condition {}", self.c.show(c, 4))),
                    }
                }
                Ok(Some(self.split(st, s, &pts)))
            }
            _ => Ok(None),
        }
    }
    fn split(&mut self, st: &State, s: u32, pts: &[i128]) -> Vec<State> {
        let (lo, hi) = st.rng[s as usize];
        let mut out = vec![];
        let mut a = lo;
        let mut ps = pts.to_vec();
        ps.push(hi + 1);
        for p in ps {
            let b = p - 1;
            if a <= b {
                let mut x = st.clone();
                x.rng[s as usize] = (a, b);
                if hi - lo > 4096 && b - a > 4096 {
                    x.ufork += 1;
                }
                out.push(x);
            }
            a = p;
        }
        self.forks += out.len() as u64;
        out
    }
    fn icmp(&mut self, p: Pred, x: N, y: N) -> Res<N> {
        let (ox, oy) = (self.c.op(x), self.c.op(y));
        if ox == O::Undef || oy == O::Undef {
            return Ok(self.c.undef(1));
        }
        let (mut x, mut y) = (self.c.norm(x), self.c.norm(y));
        if ox == O::Ptr || oy == O::Ptr || ox == O::Fn || oy == O::Fn {
            if ox == O::Ptr && oy == O::Ptr {
                let (a, b) = (self.c.nd(x).clone(), self.c.nd(y).clone());
                if a.imm == b.imm {
                    x = a.a[0];
                    y = b.a[0];
                } else {
                    if !matches!(p, Pred::Eq | Pred::Ne) {
                        self.assumptions.insert("relational comparison of pointers into different objects (libstdc++ string overlap test) follows object creation order".into());
                    }
                    let w = self.pw();
                    x = self.c.c(w, a.imm);
                    y = self.c.c(w, b.imm);
                }
            } else if ox == O::Ptr && oy == O::Const || ox == O::Const && oy == O::Ptr || ox == O::Fn || oy == O::Fn {
                // a pointer into an object is never null and compares above null
                let w = self.pw();
                if ox == O::Ptr || ox == O::Fn {
                    x = self.c.c(w, 1 << 20);
                }
                if oy == O::Ptr || oy == O::Fn {
                    y = self.c.c(w, 1 << 20);
                }
            } else {
                x = self.ptr_as_int(x)?;
                y = self.ptr_as_int(y)?;
            }
        }
        let r = match p {
            Pred::Eq => self.c.eq(x, y),
            Pred::Ne => {
                let e = self.c.eq(x, y);
                self.c.not(e)
            }
            Pred::Ult => self.c.ult(x, y),
            Pred::Ugt => self.c.ult(y, x),
            Pred::Uge => {
                let e = self.c.ult(x, y);
                self.c.not(e)
            }
            Pred::Ule => {
                let e = self.c.ult(y, x);
                self.c.not(e)
            }
            Pred::Slt => self.c.slt(x, y),
            Pred::Sgt => self.c.slt(y, x),
            Pred::Sge => {
                let e = self.c.slt(x, y);
                self.c.not(e)
            }
            Pred::Sle => {
                let e = self.c.slt(y, x);
                self.c.not(e)
            }
        };
        Ok(r)
    }
    // ------------------------------------------------------------ externals
    fn external(&mut self, st: &mut State, name: &str, a: &[N], ret: &Ty, noreturn: bool) -> Res<Ext> {
        let w = self.pw();
        if name.starts_with("llvm.") {
            if name.starts_with("llvm.memcpy") || name.starts_with("llvm.memmove") {
                return self.mem_copy(st, a[0], a[1], a[2]);
            }
            if name.starts_with("llvm.memset") {
                return self.mem_set(st, a[0], a[1], a[2]);
            }
            if name.starts_with("llvm.lifetime") || name.starts_with("llvm.assume") || name.starts_with("llvm.experimental.noalias") || name.starts_with("llvm.dbg") || name.starts_with("llvm.prefetch") {
                return Ok(Ext::Val(None));
            }
            if name.starts_with("llvm.umax") || name.starts_with("llvm.umin") {
                let c = self.c.ult(a[0], a[1]);
                return Ok(Ext::Val(Some(if name.starts_with("llvm.umax") { self.c.ite(c, a[1], a[0]) } else { self.c.ite(c, a[0], a[1]) })));
            }
            if name.starts_with("llvm.fshl") || name.starts_with("llvm.fshr") {
                let bw = self.c.w(a[0]);
                if let Some(s) = self.c.cval(a[2]) {
                    let s = (s % bw as u128) as u32;
                    let s = if name.starts_with("llvm.fshr") { (bw - s) % bw } else { s };
                    let left = name.starts_with("llvm.fshl");
                    if s == 0 {
                        return Ok(Ext::Val(Some(if left { a[0] } else { a[1] })));
                    }
                    let h = self.c.ext(a[0], 0, bw - s);
                    let l = self.c.ext(a[1], bw - s, s);
                    return Ok(Ext::Val(Some(self.c.cat(vec![h, l]))));
                }
            }
            if name.starts_with("llvm.bswap") {
                let bw = self.c.w(a[0]);
                let mut l = vec![];
                for i in 0..bw / 8 {
                    l.push(self.c.ext(a[0], 8 * i, 8));
                }
                return Ok(Ext::Val(Some(self.c.cat(l))));
            }
            for f in ["fabs", "floor", "ceil", "round", "trunc", "sqrt", "log2", "log", "exp2", "pow", "sin", "cos", "lround", "llround"] {
                if name.starts_with(&format!("llvm.{}.", f)) {
                    return self.external(st, f, a, ret, noreturn);
                }
            }
            if name.starts_with("llvm.ctlz") || name.starts_with("llvm.cttz") || name.starts_with("llvm.ctpop") {
                let bw = self.c.w(a[0]);
                self.sync_in(st);
                let (lo, hi) = self.c.urange(a[0], 8);
                let f = |v: u128| -> u32 {
                    if name.starts_with("llvm.ctlz") {
                        v.leading_zeros() - (128 - bw)
                    } else if name.starts_with("llvm.cttz") {
                        v.trailing_zeros().min(bw)
                    } else {
                        v.count_ones()
                    }
                };
                if lo != hi && (!name.starts_with("llvm.ctlz") || f(lo) != f(hi)) {
                    return Err("symbolic float: count of zeros not constant over the range".into());
                }
                return Ok(Ext::Val(Some(self.c.c(bw, f(lo) as u128))));
            }
            if name.starts_with("llvm.eh.typeid.for") {
                let t = self.typeid(a[0])?;
                return Ok(Ext::Val(Some(self.c.c(32, t as u128))));
            }
            if name.starts_with("llvm.expect") {
                return Ok(Ext::Val(Some(a[0])));
            }
            if name.starts_with("llvm.is.constant") {
                return Ok(Ext::Val(Some(self.c.c(1, 0))));
            }
            if name.starts_with("llvm.objectsize") {
                return Ok(Ext::Val(Some(self.c.c(w, !0u64 as u128))));
            }
            if name.starts_with("llvm.stacksave") {
                return Ok(Ext::Val(Some(self.c.c(w, 0))));
            }
            if name.starts_with("llvm.stackrestore") {
                return Ok(Ext::Val(None));
            }
            if let Some(r) = name.strip_prefix("llvm.uadd.with.overflow.").or_else(|| name.strip_prefix("llvm.umul.with.overflow.")) {
                let bw = self.c.w(a[0]);
                let _ = r;
                if bw <= 64 {
                    let (x, y) = (self.c.zext(a[0], bw * 2), self.c.zext(a[1], bw * 2));
                    let s = if name.contains("uadd") { self.c.add(x, y) } else { self.c.mul(x, y) };
                    let lo = self.c.ext(s, 0, bw);
                    let h = self.c.ext(s, bw, bw);
                    let z = self.c.c(bw, 0);
                    let e = self.c.eq(h, z);
                    let o = self.c.not(e);
                    return Ok(Ext::Val(Some(self.c.agg(vec![lo, o]))));
                }
            }
            return Err(format!("intrinsic {}", name));
        }
        self.ext_calls.insert(name.to_string());
        if self.cli.is_some() && (name == "memcmp" || name == "bcmp") {
            if let Some(v) = self.cli_memcmp(st, a)? {
                return Ok(Ext::Fork(v));
            }
        }
        match name {
            "_Znwm" | "_Znam" | "_Znwj" | "_Znaj" | "malloc" => {
                let s = self.c.norm(a[0]);
                if let Some(v) = self.c.cval(s) {
                    if v > 1 << 30 {
                        self.fail(st, "allocation", format!("allocation of {} bytes", v), true);
                        return Ok(Ext::Dead);
                    }
                    let o = st.new_obj(v as u64, OK::Heap, "heap", self.uninit);
                    let z = self.c.c(w, 0);
                    self.assumptions.insert("operator new succeeds (no bad_alloc)".into());
                    return Ok(Ext::Val(Some(self.c.ptr(o, z))));
                }
                if self.c.op(s) == O::Lin {
                    return Ok(Ext::Fork(self.pin(st, s)?));
                }
                Err("allocation of symbolic size".into())
            }
            "_ZdlPv" | "_ZdlPvm" | "_ZdaPv" | "_ZdaPvm" | "_ZdlPvj" | "_ZdaPvj" | "free" => {
                let nd = self.c.nd(a[0]).clone();
                if nd.o == O::Const && nd.imm == 0 {
                    return Ok(Ext::Val(None));
                }
                if nd.o != O::Ptr || st.objs[nd.imm as usize].kind != OK::Heap || !st.objs[nd.imm as usize].alive || self.c.cval(nd.a[0]) != Some(0) {
                    self.fail(st, "bad-free", format!("delete of {}", self.c.show(a[0], 2)), true);
                    return Ok(Ext::Dead);
                }
                if a.len() > 1 {
                    if let Some(v) = self.c.cval(a[1]) {
                        if v as u64 != st.objs[nd.imm as usize].size {
                            self.fail(st, "bad-free", "sized delete with the wrong size".into(), true);
                        }
                    }
                }
                self.ok("valid-free", st, 6);
                let ob = st.obj_mut(nd.imm as u32);
                ob.alive = false;
                ob.cells.clear();
                Ok(Ext::Val(None))
            }
            "memcpy" | "memmove" => {
                let r = self.mem_copy(st, a[0], a[1], a[2])?;
                Ok(match r {
                    Ext::Val(_) => Ext::Val(Some(a[0])),
                    x => x,
                })
            }
            "memset" => {
                let v = self.c.trunc(a[1], 8);
                let r = self.mem_set(st, a[0], v, a[2])?;
                Ok(match r {
                    Ext::Val(_) => Ext::Val(Some(a[0])),
                    x => x,
                })
            }
            "memcmp" | "bcmp" => {
                let n = self.c.norm(a[2]);
                let n = match self.c.cval(n) {
                    Some(n) => n,
                    None => return Err("memcmp with symbolic length".into()),
                };
                let mut acc = self.c.c(32, 0);
                let one = self.c.c(32, 1);
                let m1 = self.c.c(32, !0u32 as u128);
                for i in (0..n).rev() {
                    let k = self.c.c(w, i);
                    let (pa, pb) = (self.gep_raw(a[0], k), self.gep_raw(a[1], k));
                    let x = match self.load(st, pa, 1, false)? {
                        Ok(v) => v,
                        Err(f) => return Ok(Ext::Fork(f)),
                    };
                    let y = match self.load(st, pb, 1, false)? {
                        Ok(v) => v,
                        Err(f) => return Ok(Ext::Fork(f)),
                    };
                    let e = self.c.eq(x, y);
                    let l = self.c.ult(x, y);
                    let s = self.c.ite(l, m1, one);
                    acc = self.c.ite(e, acc, s);
                }
                Ok(Ext::Val(Some(acc)))
            }
            "strlen" => {
                let mut i = 0u64;
                loop {
                    let k = self.c.c(w, i as u128);
                    let p = self.gep_raw(a[0], k);
                    let x = match self.load(st, p, 1, false)? {
                        Ok(v) => v,
                        Err(f) => return Ok(Ext::Fork(f)),
                    };
                    match self.c.cval(x) {
                        Some(0) => break,
                        Some(_) => i += 1,
                        None if self.nonzero(x) => i += 1,
                        None => return Err("strlen of symbolic string".into()),
                    }
                }
                Ok(Ext::Val(Some(self.c.c(w, i as u128))))
            }
            "sin" | "cos" | "fabs" | "log2" | "floor" | "ceil" | "sqrt" | "round" | "pow" | "exp2" | "log" | "trunc" => {
                let (lo, hi) = self.fint(a[0])?;
                if lo != hi {
                    let g = |v: f64| match name {
                        "log2" => Ok(v.log2()),
                        "floor" => Ok(v.floor()),
                        "ceil" => Ok(v.ceil()),
                        "round" => Ok(v.round()),
                        "trunc" => Ok(v.trunc()),
                        "log" => Ok(v.ln()),
                        "exp2" => Ok(v.exp2()),
                        "sqrt" => Ok(v.sqrt()),
                        _ => Err(format!("symbolic {}", name)),
                    };
                    self.assumptions.insert(format!("libm {}() is monotone and agrees with this machine's libm at the end points", name));
                    let (x, y) = (g(lo)?, g(hi)?);
                    return Ok(Ext::Val(Some(self.mkint(x, y)?)));
                }
                let v = self.fval(a[0])?;
                let r = match name {
                    "sin" => v.sin(),
                    "cos" => v.cos(),
                    "fabs" => v.abs(),
                    "log2" => v.log2(),
                    "floor" => v.floor(),
                    "ceil" => v.ceil(),
                    "sqrt" => v.sqrt(),
                    "round" => v.round(),
                    "trunc" => v.trunc(),
                    "exp2" => v.exp2(),
                    "log" => v.ln(),
                    _ => v.powf(self.fval(a[1])?),
                };
                self.assumptions.insert(format!("libm {}() evaluated on concrete arguments agrees with this machine's libm", name));
                Ok(Ext::Val(Some(self.f64(r))))
            }
            "lround" | "llround" => {
                let (lo, hi) = self.fint(a[0])?;
                if lo.round() != hi.round() {
                    return Err("symbolic float: not constant over the range".into());
                }
                let r = lo.round();
                let rw = match ret {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                Ok(Ext::Val(Some(self.c.c(rw, r as i128 as u128))))
            }
            "__cxa_atexit" => {
                let z = self.c.c(32, 0);
                Ok(Ext::Val(Some(z)))
            }
            "__cxa_guard_acquire" => {
                let z = self.c.c(32, 1);
                Ok(Ext::Val(Some(z)))
            }
            "__cxa_guard_release" => Ok(Ext::Val(None)),
            "__cxa_call_unexpected" => Ok(Ext::Dead),
            _ => {
                let bad = noreturn || name.contains("__throw") || name == "abort" || name == "_ZSt9terminatev" || name == "__assert_fail" || name == "__cxa_throw" || name.contains("glibcxx_assert");
                if bad {
                    self.fail(st, "assertion", format!("call to {} reached", name), true);
                    return Ok(Ext::Dead);
                }
                Err(format!("external function {}", name))
            }
        }
    }
    pub fn gep_raw(&mut self, p: N, k: N) -> N {
        let nd = self.c.nd(p).clone();
        if nd.o == O::Ptr {
            let o = self.c.add(nd.a[0], k);
            return self.c.ptr(nd.imm as u32, o);
        }
        if self.c.cval(k) == Some(0) {
            return p;
        }
        self.c.add(p, k)
    }
    fn mem_copy(&mut self, st: &mut State, d: N, s: N, n: N) -> Res<Ext> {
        let n = self.c.norm(n);
        let cnt = match self.c.cval(n) {
            Some(v) => v as u64,
            None => {
                if self.c.op(n) == O::Lin {
                    return Ok(Ext::Fork(self.pin(st, n)?));
                }
                return Err("memcpy with symbolic length".into());
            }
        };
        if cnt == 0 {
            return Ok(Ext::Val(None));
        }
        let (so, soff) = match self.access(st, s, cnt, false)? {
            Some(x) => x,
            None => return Ok(Ext::Dead),
        };
        let (dob, doff) = match self.access(st, d, cnt, true)? {
            Some(x) => x,
            None => return Ok(Ext::Dead),
        };
        if self.c.cval(doff).is_none() {
            if self.c.op(doff) == O::Lin && st.objs[dob as usize].szn.is_none() {
                return Ok(Ext::Fork(self.pin(st, doff)?));
            }
            return Err("memcpy destination".into());
        }
        let df = self.c.cval(doff).unwrap() as u64;
        let mut tmp = Vec::with_capacity(cnt as usize);
        if let OK::Region(r) = st.objs[so as usize].kind {
            let w = self.pw();
            for i in 0..cnt {
                let k = self.c.c(w, i as u128);
                let a = self.c.add(soff, k);
                let b = self.c.inb(r, a);
                tmp.push(Cell { n: b, k: 0 });
            }
        } else {
            let sf = match self.c.cval(soff) {
                Some(x) => x as u64,
                None => {
                    if self.c.op(soff) == O::Lin {
                        return Ok(Ext::Fork(self.pin(st, soff)?));
                    }
                    return Err("memcpy source".into());
                }
            };
            for i in 0..cnt {
                tmp.push(st.objs[so as usize].get(sf + i));
            }
        }
        let ob = st.obj_mut(dob);
        for (i, c) in tmp.into_iter().enumerate() {
            ob.set(df + i as u64, c);
        }
        Ok(Ext::Val(None))
    }
    fn mem_set(&mut self, st: &mut State, d: N, v: N, n: N) -> Res<Ext> {
        let n = self.c.norm(n);
        let cnt = match self.c.cval(n) {
            Some(v) => v as u64,
            None => {
                if self.c.op(n) == O::Lin {
                    return Ok(Ext::Fork(self.pin(st, n)?));
                }
                return Err("memset with symbolic length".into());
            }
        };
        if cnt == 0 {
            return Ok(Ext::Val(None));
        }
        let (o, off) = match self.access(st, d, cnt, true)? {
            Some(x) => x,
            None => return Ok(Ext::Dead),
        };
        match self.c.cval(off) {
            Some(x) => {
                let ob = st.obj_mut(o);
                for i in 0..cnt {
                    ob.set(x as u64 + i, Cell { n: v, k: 0 });
                }
                Ok(Ext::Val(None))
            }
            None => {
                if self.c.op(off) == O::Lin {
                    return Ok(Ext::Fork(self.pin(st, off)?));
                }
                Err("memset destination".into())
            }
        }
    }
    // ------------------------------------------------------------ merging
    fn merge(&mut self, c: N, mut a: State, mut b: State, np: usize, phis: bool) -> Res<Result<State, (State, State)>> {
        if phis {
            self.sync_in(&mut a);
            self.do_phis(&mut a)?;
            self.sync_in(&mut b);
            self.do_phis(&mut b)?;
        }
        self.sync_in(&mut a);
        self.sync_in(&mut b);
        if a.rng != b.rng || a.calls != b.calls || a.frames.len() != b.frames.len() || a.path.len() != np + 1 || b.path.len() != np + 1 || a.subst.len() != b.subst.len() {
            return Ok(Err((a, b)));
        }
        let mut m = a.clone();
        m.path.truncate(np);
        m.gwrites = a.gwrites.max(b.gwrites);
        m.ufork = a.ufork.max(b.ufork);
        let mergeable = |s: &Ctx, n: N| !matches!(s.op(n), O::Ptr | O::Fn | O::F64 | O::Agg);
        // return value
        match (a.ret, b.ret) {
            (Some(x), Some(y)) if x != y => {
                if self.c.w(x) == self.c.w(y) && mergeable(&self.c, x) && mergeable(&self.c, y) {
                    m.ret = Some(self.c.ite(c, x, y));
                } else {
                    m.ret = None;
                }
            }
            (Some(x), Some(_)) => m.ret = Some(x),
            _ => m.ret = None,
        }
        for fi in 0..a.frames.len() {
            let (fa, fb) = (&a.frames[fi], &b.frames[fi]);
            if fa.f != fb.f || fa.blk != fb.blk || fa.ip != fb.ip {
                return Ok(Err((a, b)));
            }
            for r in 0..fa.regs.len() {
                let (x, y) = (fa.regs[r], fb.regs[r]);
                if x == y {
                    continue;
                }
                if x == UNSET || y == UNSET {
                    m.frames[fi].regs[r] = UNSET; // defined on one side only: not live after the join
                    continue;
                }
                if self.c.w(x) != self.c.w(y) || !mergeable(&self.c, x) || !mergeable(&self.c, y) {
                    // keep separate if it could be live: only phi results / earlier defs reach here
                    return Ok(Err((a, b)));
                }
                if self.c.op(x) == O::Undef || self.c.op(y) == O::Undef {
                    let w = self.c.w(x);
                    m.frames[fi].regs[r] = self.c.undef(w);
                    continue;
                }
                m.frames[fi].regs[r] = self.c.ite(c, x, y);
            }
        }
        if a.objs.len() != b.objs.len() {
            return Ok(Err((a, b)));
        }
        for oi in 0..a.objs.len() {
            if Rc::ptr_eq(&a.objs[oi], &b.objs[oi]) {
                continue;
            }
            let (oa, ob) = (a.objs[oi].clone(), b.objs[oi].clone());
            if oa.alive != ob.alive || oa.size != ob.size || oa.kind != ob.kind {
                return Ok(Err((a, b)));
            }
            if !oa.alive {
                continue;
            }
            let mut i = 0;
            while i < oa.size {
                if i % CH as u64 == 0 && Rc::ptr_eq(&oa.cells[i as usize / CH], &ob.cells[i as usize / CH]) {
                    i += CH as u64;
                    continue;
                }
                let (x, y) = (oa.get(i), ob.get(i));
                if x == y {
                    i += 1;
                    continue;
                }
                if x.n == self.uninit || y.n == self.uninit {
                    let u = self.uninit;
                    m.obj_mut(oi as u32).set(i, Cell { n: u, k: 0 });
                    i += 1;
                    continue;
                }
                if self.c.w(x.n) != self.c.w(y.n) {
                    // one side wrote a whole word, the other holds its bytes: merge the word
                    if let Some((at, size, vx, vy)) = self.wide(&a, &b, oi as u32, x, i)?.or(self.wide(&b, &a, oi as u32, y, i)?.map(|(p, s, u, v)| (p, s, v, u))) {
                        if mergeable(&self.c, vx) && mergeable(&self.c, vy) {
                            let n = self.c.ite(c, vx, vy);
                            let big = self.m.big;
                            for k in 0..size {
                                m.obj_mut(oi as u32).set(at + if big { size - 1 - k } else { k }, Cell { n, k: k as u16 });
                            }
                            i = at + size;
                            continue;
                        }
                    }
                }
                if x.k == y.k && self.c.w(x.n) == self.c.w(y.n) && mergeable(&self.c, x.n) && mergeable(&self.c, y.n) {
                    let n = self.c.ite(c, x.n, y.n);
                    m.obj_mut(oi as u32).set(i, Cell { n, k: x.k });
                } else {
                    match (self.byte_of(x), self.byte_of(y)) {
                        (Some(p), Some(q)) => {
                            let n = self.c.ite(c, p, q);
                            m.obj_mut(oi as u32).set(i, Cell { n, k: 0 });
                        }
                        _ => return Ok(Err((a, b))),
                    }
                }
                i += 1;
            }
        }
        self.merges += 1;
        if phis {
            // the join block may be a loop header
            match self.header(&mut m)? {
                Step::Go => {}
                _ => return Ok(Err((a, b))),
            }
        }
        Ok(Ok(m))
    }
    /// the word written in `a` that covers offset `i`, and the value the same bytes have in `b`
    fn wide(&mut self, a: &State, b: &State, o: u32, x: Cell, i: u64) -> Res<Option<(u64, u64, N, N)>> {
        let w = self.c.w(x.n) as u64;
        if !matches!(w, 16 | 32 | 64 | 128) {
            return Ok(None);
        }
        let size = w / 8;
        let back = if self.m.big { size - 1 - x.k as u64 } else { x.k as u64 };
        if back > i || i - back + size > a.objs[o as usize].size {
            return Ok(None);
        }
        let at = i - back;
        for k in 0..size {
            let y = at + if self.m.big { size - 1 - k } else { k };
            if a.objs[o as usize].get(y) != (Cell { n: x.n, k: k as u16 }) || b.objs[o as usize].get(y).n == self.uninit {
                return Ok(None);
            }
            let c = b.objs[o as usize].get(y);
            if self.byte_of(c).is_none() {
                return Ok(None);
            }
        }
        let v = self.get(b, o, at, size)?;
        Ok(if self.c.w(v) as u64 == w { Some((at, size, x.n, v)) } else { None })
    }
    // ------------------------------------------------------------ loop cut points
    fn do_cut(&mut self, mut st: State, hi: usize, stop: Option<(usize, usize)>) -> Res<Vec<State>> {
        let snaps: Vec<Rc<State>> = {
            let fr = st.frames.last().unwrap();
            let v = &fr.hist[hi].2;
            v[v.len() - 3..].to_vec()
        };
        let depth = st.frames.len();
        let blk = st.frames.last().unwrap().blk;
        st.fr().hist.remove(hi);
        let mut weak: HashSet<(N, N, N)> = Default::default();
        let mut weakloc: HashSet<Loc> = Default::default();
        for _attempt in 0..20 {
            let nfails = self.fails.len();
            let id = self.ncuts;
            self.ncuts += 1;
            let (mut g, cut, gmap) = self.generalise(&snaps, depth, blk, id, &weak, &weakloc)?;
            if self.trace {
                let f = st.frames.last().unwrap().f;
                eprintln!("cut {} at {} block {} depth {} outer {:?} k range {:?}", id, self.m.funcs[f].name, blk, depth, st.cuts.iter().map(|c| c.id).collect::<Vec<_>>(), (self.c.rng[cut.k as usize], cut.d));
            }
            self.cut_fail.remove(&id);
            let cut = Rc::new(cut);
            g.cuts.push(cut.clone());
            let outs = self.run(g, stop)?;
            match self.cut_fail.remove(&id) {
                None => {
                    self.cuts_done += 1;
                    *self.oblig.entry("loop-invariant-inductive".into()).or_insert(0) += 1;
                    return Ok(outs);
                }
                Some(bad) => {
                    self.fails.truncate(nfails);
                    let mut any = false;
                    for (gn, _, loc) in bad {
                        if let Some(t) = gmap.get(&gn) {
                            for tr in t {
                                if tr.0 == tr.1 && tr.1 == tr.2 {
                                    // unchanged in the sampled iterations: other places may hold the same value for good
                                    any |= weakloc.insert(loc);
                                } else {
                                    any |= weak.insert(*tr);
                                }
                            }
                        } else {
                            any |= weakloc.insert(loc);
                        }
                    }
                    if !any {
                        return Err(format!("loop invariant not inductive: {}", self.cut_fail_msgs.last().cloned().unwrap_or_default()));
                    }
                }
            }
        }
        Err("loop invariant inference did not converge".into())
    }
    fn generalise(&mut self, sn: &[Rc<State>], depth: usize, blk: usize, id: u32, weak: &HashSet<(N, N, N)>, weakloc: &HashSet<Loc>) -> Res<(State, Cut, HashMap<N, Vec<(N, N, N)>>)> {
        let (s1, s2, s3) = (&sn[0], &sn[1], &sn[2]);
        // the symbol whose lower bound advances
        let mut q: Option<(u32, i128, i128)> = None;
        for s in 0..s1.rng.len() {
            let (a, b, c) = (s1.rng[s], s2.rng[s], s3.rng[s]);
            if a == b && b == c {
                continue;
            }
            if a.1 == b.1 && b.1 == c.1 && b.0 - a.0 == c.0 - b.0 && b.0 > a.0 {
                if q.is_some() {
                    return Err("loop cut: two advancing symbols".into());
                }
                q = Some((s as u32, a.0, b.0 - a.0));
            } else {
                return Err(format!("loop cut: irregular range of {}", self.c.asyms[s].name));
            }
        }
        let (q, a0, d) = q.ok_or("loop cut: no advancing symbol")?;
        let hi = s1.rng[q as usize].1;
        // samples: keep q's samples consistent where possible
        let mut ks = [0i128; NL];
        let mut ms = [0i128; NL];
        for l in 0..NL {
            let qv = self.c.asyms[q as usize].sample[l].max(a0);
            let tot = qv - a0;
            let kk = if tot / d > 0 { (mix128(q as u64 ^ 0x77, l as u64) % ((tot / d) as u128 + 1)) as i128 } else { 0 };
            ks[l] = kk;
            ms[l] = tot - d * kk;
        }
        let mut st = (**s1).clone();
        self.c.set_rng(&st.rng);
        // iteration symbols are shared between loop cuts that range over the same interval, unless this path already
        // constrains them
        let used: Vec<u32> = st.subst.iter().flat_map(|s| s.values().flat_map(|l| l.t.iter().map(|x| x.0))).collect();
        let key = (q, a0, d, hi);
        let l = self.cut_syms.entry(key).or_default().clone();
        let (k, m) = match l.iter().find(|(k, m)| !used.contains(k) && !used.contains(m) && self.c.rng[*k as usize] == self.c.rng0[*k as usize] && self.c.rng[*m as usize] == self.c.rng0[*m as usize]) {
            Some(x) => *x,
            None => {
                let k = self.c.asym_sampled(&format!("k{}", id), 0, (hi - a0) / d, ks);
                let m = self.c.asym_sampled(&format!("m{}", id), 0, hi - a0, ms);
                self.cut_syms.get_mut(&key).unwrap().push((k, m));
                (k, m)
            }
        };
        let mut aux = vec![];
        let mut sub: HashMap<u32, Lin> = HashMap::default();
        let mut t = vec![(k, d), (m, 1)];
        t.sort();
        sub.insert(q, Lin { t, c: a0 });
        let mut memo = FxMap::default();
        let mut gmap: HashMap<N, Vec<(N, N, N)>> = HashMap::default();
        let mut tmemo: HashMap<(N, N, N), N> = HashMap::default();
        let mut chain: Vec<(N, N)> = vec![]; // (H_j(k), advanced) filled later
        let mut havoc: HashSet<N> = Default::default();
        // chain generalisation: a family is (pos1 as Lin, step): words j
        let mut fam: HashMap<(Lin, i128), Vec<N>> = HashMap::default();
        if s2.frames.len() != depth || s3.frames.len() != depth {
            return Err("loop cut: frame depth".into());
        }
        let mut lmemo: HashMap<Loc, N> = HashMap::default();
        macro_rules! gen {
            ($x:expr, $y:expr, $z:expr, $l:expr) => {{
                let tr = ($x, $y, $z);
                let loc: Loc = $l;
                let r = if weakloc.contains(&loc) {
                    let n = self.c.bsyms.len();
                    let w = self.c.w(tr.0);
                    let special = matches!(self.c.op(tr.0), O::Ptr | O::Fn | O::F64 | O::Agg);
                    let h = match lmemo.get(&loc) {
                        Some(h) if self.c.w(*h) == w => *h,
                        _ => if special { self.c.undef(w) } else { self.c.bsym(&format!("havoc{}", n), w, true) },
                    };
                    lmemo.insert(loc, h);
                    havoc.insert(h);
                    h
                } else { match tmemo.get(&tr) {
                    Some(r) => *r,
                    None => {
                        let r = self.gen3(tr, k, d, &sub, &mut memo, weak, &mut fam, &mut havoc, 0, &mut aux)?;
                        tmemo.insert(tr, r);
                        gmap.entry(r).or_default().push(tr);
                        r
                    }
                }};
                r
            }};
        }
        for fi in 0..depth {
            let nr = st.frames[fi].regs.len();
            for r in 0..nr {
                let (x, y, z) = (s1.frames[fi].regs[r], s2.frames[fi].regs[r], s3.frames[fi].regs[r]);
                if s2.frames[fi].f != s1.frames[fi].f || s3.frames[fi].f != s1.frames[fi].f {
                    return Err("loop cut: frames".into());
                }
                if x == UNSET || y == UNSET || z == UNSET {
                    st.frames[fi].regs[r] = UNSET;
                    continue;
                }
                let g = gen!(x, y, z, (true, fi as u32, r as u64));
                st.frames[fi].regs[r] = g;
            }
        }
        let no = s1.objs.len();
        for s in [s2, s3] {
            for o in no..s.objs.len() {
                if s.objs[o].alive {
                    return Err("loop cut: allocation inside the loop survives the iteration".into());
                }
            }
        }
        for oi in 0..no {
            let (a, b, c) = (s1.objs[oi].clone(), s2.objs[oi].clone(), s3.objs[oi].clone());
            if !a.alive {
                continue;
            }
            if !b.alive || !c.alive {
                return Err("loop cut: object freed in the loop".into());
            }
            if let Some(sz) = a.szn {
                let g = self.c.subst(sz, &sub, &mut memo);
                st.obj_mut(oi as u32).szn = Some(g);
                continue;
            }
            if a.kind == OK::Const {
                continue;
            }
            let same = Rc::ptr_eq(&a, &b) && Rc::ptr_eq(&b, &c);
            for i in 0..a.size {
                let (x, y, z) = (a.get(i), b.get(i), c.get(i));
                if x.n == self.uninit {
                    continue;
                }
                let nc = if (same || x == y && y == z) && !self.has_aff(x.n) {
                    x
                } else if x.k == y.k && y.k == z.k && self.c.w(x.n) == self.c.w(y.n) && self.c.w(y.n) == self.c.w(z.n) {
                    Cell { n: gen!(x.n, y.n, z.n, (false, oi as u32, i.wrapping_sub(x.k as u64))), k: x.k }
                } else {
                    match (self.byte_of(x), self.byte_of(y), self.byte_of(z)) {
                        (Some(p), Some(q2), Some(r)) => Cell { n: gen!(p, q2, r, (false, oi as u32, i)), k: 0 },
                        _ => {
                            let u = self.uninit;
                            Cell { n: u, k: 0 }
                        }
                    }
                };
                if nc != x {
                    st.obj_mut(oi as u32).set(i, nc);
                }
            }
        }
        let path: Vec<N> = st.path.clone();
        st.path = path.iter().map(|p| self.c.subst(*p, &sub, &mut memo)).collect();
        st.rng = self.c.rng.clone();
        st.subst.push(Rc::new(sub));
        // register chain steps for every family and compute the advanced words
        let fams: Vec<((Lin, i128), Vec<N>)> = fam.into_iter().collect();
        for ((p1, dp), words) in fams {
            let mut pos = Lin { t: p1.t.clone(), c: p1.c };
            pos = Ctx::lin_add(&pos, &Lin { t: vec![(k, dp)], c: 0 }, 1);
            let adv = self.chain_register(&words, &pos, dp as usize)?;
            for j in 0..words.len() {
                chain.push((words[j], adv[j]));
            }
        }
        let mut gst = st.clone();
        gst.cuts = vec![];
        Ok((
            st,
            Cut { id, depth, blk, k, m, d, g: Rc::new(gst), chain, havoc: Rc::new(havoc), aux },
            gmap,
        ))
    }
    fn has_aff(&self, n: N) -> bool {
        // cheap: does the term mention affine symbols at all?
        match self.c.op(n) {
            O::Const | O::Sym | O::Undef | O::F64 | O::Fn => false,
            _ => true,
        }
    }
    /// tag words as chain values at pos and register the following steps; returns the words after n steps
    pub fn chain_register(&mut self, words: &[N], pos: &Lin, n: usize) -> Res<Vec<N>> {
        let mut ch = self.chain.take().ok_or("no chain specification")?;
        let mut w = words.to_vec();
        let mut p = pos.clone();
        for (j, x) in w.iter().enumerate() {
            let l = ch.tags.entry(*x).or_default();
            if !l.contains(&(j, p.clone())) {
                l.push((j, p.clone()));
            }
        }
        let mut out = if n == 0 { w.clone() } else { vec![] };
        let total = (n + ch.ahead).max(1);
        let (sm, mo) = (self.c.spec_mode, self.c.match_on);
        self.c.spec_mode = true;
        for i in 0..total {
            w = (ch.step)(&mut self.c, &w, &p);
            p.c += 1;
            for (j, x) in w.iter().enumerate() {
                let l = ch.tags.entry(*x).or_default();
            if !l.contains(&(j, p.clone())) {
                l.push((j, p.clone()));
            }
            }
            if i + 1 == n {
                out = w.clone();
            }
        }
        self.c.spec_mode = sm;
        self.c.match_on = mo;
        self.chain = Some(ch);
        Ok(out)
    }
    fn tag3(&self, t: (N, N, N)) -> Option<(usize, Lin, i128)> {
        let ch = self.chain.as_ref()?;
        let (a, b, c) = (ch.tags.get(&t.0)?, ch.tags.get(&t.1)?, ch.tags.get(&t.2)?);
        for (j, p) in a {
            for (j2, p2) in b {
                if j != j2 {
                    continue;
                }
                let d = Ctx::lin_add(p2, p, -1);
                if !d.t.is_empty() || d.c <= 0 {
                    continue;
                }
                for (j3, p3) in c {
                    if j3 == j && Ctx::lin_add(p3, p2, -1) == d {
                        return Some((*j, p.clone(), d.c));
                    }
                }
            }
        }
        None
    }
    #[allow(clippy::too_many_arguments)]
    fn gen3(
        &mut self,
        t: (N, N, N),
        k: u32,
        d: i128,
        sub: &HashMap<u32, Lin>,
        memo: &mut FxMap<N, N>,
        weak: &HashSet<(N, N, N)>,
        fam: &mut HashMap<(Lin, i128), Vec<N>>,
        havoc: &mut HashSet<N>,
        lvl: u32,
        aux: &mut Vec<u32>,
    ) -> Res<N> {
        let (x, y, z) = t;
        let w = self.c.w(x);
        if !weak.contains(&t) {
            if x == y && y == z {
                return Ok(self.c.subst(x, sub, memo));
            }
            if let Some((j, p, dp)) = self.tag3(t) {
                let p = self.subst_lin(&p, sub);
                let key = (p.clone(), dp);
                if let (false, Some(v)) = (fam.contains_key(&key), self.chain.as_ref().unwrap().fams.get(&(k, p.clone(), dp))) {
                    fam.insert(key.clone(), v.clone());
                }
                if !fam.contains_key(&key) {
                    let widths = self.chain.as_ref().unwrap().widths.clone();
                    let mut v = vec![];
                    for (jj, ww) in widths.iter().enumerate() {
                        let n = self.c.bsyms.len();
                        v.push(self.c.bsym(&format!("H{}_{}", jj, n), *ww, false));
                    }
                    self.chain.as_mut().unwrap().fams.insert((k, p.clone(), dp), v.clone());
                    fam.insert(key.clone(), v);
                }
                return Ok(fam[&key][j]);
            }
            if let (Some(a), Some(b), Some(c)) = (self.c.as_lin(x), self.c.as_lin(y), self.c.as_lin(z)) {
                if self.c.w(y) == w && self.c.w(z) == w {
                    let d1 = Ctx::lin_add(&b, &a, -1);
                    let d2 = Ctx::lin_add(&c, &b, -1);
                    let red = |v: i128| sext(mask(v as u128, w), w);
                    if d1.t.is_empty() && d2.t.is_empty() && red(d1.c) == red(d2.c) {
                        let a2 = self.subst_lin(&a, sub);
                        let r = Ctx::lin_add(&a2, &Lin { t: vec![(k, red(d1.c))], c: 0 }, 1);
                        return Ok(self.c.lin_node(r, w));
                    }
                }
            }
            let (nx, ny, nz) = (self.c.nd(x).clone(), self.c.nd(y).clone(), self.c.nd(z).clone());
            if nx.o == ny.o && ny.o == nz.o && nx.w == ny.w && ny.w == nz.w && lvl < 4 && !matches!(nx.o, O::Sym | O::Const | O::Lin | O::F64 | O::Fn | O::Undef) {
                let (ax, ay, az) = (self.c.args(x), self.c.args(y), self.c.args(z));
                let imm_ok = matches!(nx.o, O::Cat | O::Agg) || (nx.imm == ny.imm && ny.imm == nz.imm);
                if imm_ok && ax.len() == ay.len() && ay.len() == az.len() && (0..ax.len()).all(|i| self.c.w(ax[i]) == self.c.w(ay[i]) && self.c.w(ay[i]) == self.c.w(az[i])) {
                    let nh = havoc.len();
                    let mut r = vec![];
                    for i in 0..ax.len() {
                        r.push(self.gen3((ax[i], ay[i], az[i]), k, d, sub, memo, weak, fam, havoc, lvl + 1, aux)?);
                    }
                    if havoc.len() == nh || matches!(nx.o, O::Agg) {
                        return Ok(self.c.rebuild(&nx, &r));
                    }
                }
            }
        }
        // havoc
        if matches!(self.c.op(x), O::Ptr | O::Fn | O::F64 | O::Agg) {
            let u = self.c.undef(w);
            havoc.insert(u);
            return Ok(u);
        }
        let n = self.c.bsyms.len();
        let h = self.c.bsym(&format!("havoc{}", n), w, true);
        havoc.insert(h);
        Ok(h)
    }
    pub fn subst_lin(&self, l: &Lin, sub: &HashMap<u32, Lin>) -> Lin {
        let mut r = Lin { t: vec![], c: l.c };
        for (s, k) in &l.t {
            match sub.get(s) {
                Some(e) => r = Ctx::lin_add(&r, e, *k),
                None => r = Ctx::lin_add(&r, &Lin { t: vec![(*s, 1)], c: 0 }, *k),
            }
        }
        r
    }
    /// check that st is an instance of the generalised state with k+1, m-d
    fn subsume(&mut self, st: &mut State, cut: &Rc<Cut>) -> Res<()> {
        let g = cut.g.clone();
        let mut bad: Vec<(N, N, Loc)> = vec![];
        if st.rng[cut.m as usize].0 < cut.d {
            return Err("loop cut: progress variable may be exhausted on the back edge".into());
        }
        let mut sub = HashMap::default();
        sub.insert(cut.k, Lin { t: vec![(cut.k, 1)], c: 1 });
        sub.insert(cut.m, Lin { t: vec![(cut.m, 1)], c: -cut.d });
        let mut memo: FxMap<N, N> = FxMap::default();
        let mut mask = sub.keys().fold(0u64, |a, k| a | 1 << (k % 64));
        for (h, adv) in &cut.chain {
            memo.insert(*h, *adv);
            mask |= self.c.sym_sig[*h as usize];
        }
        let depth = st.frames.len();
        if g.frames.len() != depth {
            return Err("loop cut: depth".into());
        }
        let mut seen: HashMap<(N, N), bool> = HashMap::default();
        let mut cmp = |this: &mut Self, gn: N, sn: N, memo: &mut FxMap<N, N>| -> bool {
            if let Some(r) = seen.get(&(gn, sn)) {
                return *r;
            }
            let r = if cut.havoc.contains(&gn) || this.c.op(gn) == O::Undef {
                true
            } else {
                let e = this.c.subst_m(gn, &sub, memo, mask);
                if e == sn {
                    true
                } else if this.c.op(e) == O::Ptr || this.c.op(sn) == O::Ptr || this.c.op(e) == O::Agg || this.c.op(sn) == O::Agg {
                    this.c.norm_ptr(e) == this.c.norm_ptr(sn)
                } else {
                    let (e, s2) = (this.c.norm(e), this.c.norm(sn));
                    e == s2 || (this.c.smp[e as usize] == this.c.smp[s2 as usize] && this.c.decide_eq(e, s2, &[]).0 == Verdict::Proved)
                }
            };
            seen.insert((gn, sn), r);
            r
        };
        for fi in 0..depth {
            for r in 0..g.frames[fi].regs.len() {
                let gn = g.frames[fi].regs[r];
                let sn = st.frames[fi].regs[r];
                if gn == UNSET {
                    continue;
                }
                if sn == UNSET {
                    continue;
                }
                if self.c.w(gn) != self.c.w(sn) && !cut.havoc.contains(&gn) {
                    bad.push((gn, sn, (true, fi as u32, r as u64)));
                    continue;
                }
                if !cmp(self, gn, sn, &mut memo) {
                    bad.push((gn, sn, (true, fi as u32, r as u64)));
                }
            }
        }
        for oi in 0..g.objs.len() {
            let a = g.objs[oi].clone();
            let b = st.objs[oi].clone();
            if !a.alive || Rc::ptr_eq(&a, &b) || a.kind == OK::Const || a.szn.is_some() {
                continue;
            }
            if !b.alive {
                return Err("loop cut: object died".into());
            }
            for i in 0..a.size {
                let (x, y) = (a.get(i), b.get(i));
                if x.n == self.uninit {
                    continue;
                }
                if x.k == y.k && self.c.w(x.n) == self.c.w(y.n) {
                    if !cmp(self, x.n, y.n, &mut memo) {
                        bad.push((x.n, y.n, (false, oi as u32, i.wrapping_sub(x.k as u64))));
                    }
                } else if cut.havoc.contains(&x.n) {
                } else {
                    match (self.byte_of(x), self.byte_of(y)) {
                        (Some(p), Some(q)) => {
                            let e = self.c.subst_m(p, &sub, &mut memo, mask);
                            if e != q && self.c.decide_eq(e, q, &[]).0 != Verdict::Proved {
                                bad.push((x.n, y.n, (false, oi as u32, i.wrapping_sub(x.k as u64))));
                            }
                        }
                        _ => bad.push((x.n, y.n, (false, oi as u32, i.wrapping_sub(x.k as u64)))),
                    }
                }
            }
        }
        if !bad.is_empty() {
            let msg = bad.iter().take(4).map(|(a, b, _)| format!("{} -> {}", self.c.show(*a, 3), self.c.show(*b, 3))).collect::<Vec<_>>().join("; ");
            if self.trace {
                eprintln!("cut {} not inductive: {}", cut.id, msg);
            }
            self.cut_fail_msgs.push(msg);
            self.cut_fail.entry(cut.id).or_default().extend(bad);
        }
        Ok(())
    }
}

/// a place in a state: (register?, frame or object, register or byte offset)
type Loc = (bool, u32, u64);
enum Ext {
    Val(Option<N>),
    Fork(Vec<State>),
    Dead,
}

impl Ctx {
    pub fn norm_ptr(&mut self, n: N) -> N {
        match self.op(n) {
            O::Ptr => {
                let nd = self.nd(n).clone();
                self.ptr(nd.imm as u32, nd.a[0])
            }
            O::Lin => self.norm(n),
            _ => n,
        }
    }
}
