//! The contracts of one hash class and their verification.
//!
//! Representation invariant Inv(P, n): after a message of P*B + n bytes the object equals a template T_n whose
//! cells are constants, message bytes of the incomplete block, bytes of the chaining words h_P (= the specification
//! step folded over the first P blocks) and affine functions of P.  The obligations are
//!   ctor/reset  establish Inv(0,0);  addData(p,L) takes Inv(P,n) to Inv(P',n') for every L;
//!   finalize    leaves exactly the specification's final words;  the accessors return functions of those words;
//! plus all memory-safety and arithmetic obligations of the executed code.
use crate::drv::Class;
use crate::exec::*;
use crate::ir::{mask, Module};
use crate::prove::Verdict;
use crate::spec::Spec;
use crate::term::*;
use std::cell::RefCell;
use crate::term::{HashMap, HashSet};
use std::collections::BTreeMap;
use std::rc::Rc;

#[path = "tuple.rs"]
mod tuple;
#[path = "cliv.rs"]
pub mod cliv;

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Const(u8),
    Tail(u32),
    Chain(u16, u8),
    Fin(u16, u8),
    Out(u16),
    Param(u32),
    Lin { w: u32, a: i128, c: i128, k: u8 },
    Hi { a: i128, c: i128, k: u8 },
    Ptr { o: u32, off: u64, k: u8 },
    Frame(u16, u8), // pointer-sized cell group addData neither reads nor writes
    Any,
    Uninit,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Tm {
    pub objs: Vec<Vec<T>>,
}
/// what the framed cells of the object hold (pointers to heap blocks, or null)
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Shape {
    pub cells: Vec<T>,
    pub objs: Vec<Vec<T>>,
}
#[derive(Clone, Debug)]
pub struct Fam {
    pub name: String,
    pub tm: Vec<Tm>, // index n; lazy: 0..=B, eager 0..B
}
#[derive(Clone, Debug)]
pub struct FailRec {
    pub cat: String,
    pub name: String,
    pub msg: String,
    pub definite: bool,
}
#[derive(Default)]
pub struct Report {
    pub ok: BTreeMap<(String, String), u64>,
    pub fails: Vec<FailRec>,
    pub notes: Vec<String>,
    pub done: Vec<&'static str>, // categories whose obligations were all generated
}
impl Report {
    pub fn good(&mut self, cat: &str, name: &str, n: u64) {
        *self.ok.entry((cat.into(), name.into())).or_insert(0) += n;
    }
    pub fn bad(&mut self, cat: &str, name: &str, msg: String, definite: bool) {
        if self.fails.iter().filter(|f| f.cat == cat && f.name == name).count() < 3 {
            self.fails.push(FailRec { cat: cat.into(), name: name.into(), msg, definite });
        } else if definite {
            if let Some(f) = self.fails.iter_mut().find(|f| f.cat == cat && f.name == name) {
                f.definite = true;
            }
        }
    }
}

pub struct V<'m> {
    pub e: Exec<'m>,
    pub cl: Class,
    pub spec: Spec,
    pub rep: Report,
    base: State,
    size: u64,
    inner: u64, // size of the cSHAKE member of a TupleHash object
    key: Vec<N>,
    b: i128,
    // inductive setting
    p: u32,      // asym: blocks absorbed so far
    h: Vec<N>,   // chaining words at P
    iv: Vec<N>,
    his: Rc<RefCell<Vec<(i128, i128)>>>,
    ahead: usize,
    assignable: bool,
    frames: Vec<(usize, usize, N)>, // framed pointer cells: object, offset in it, opaque content
    structural: Vec<(usize, usize)>, // pointer cells addData follows
    symcache: HashMap<(String, i128, i128), u32>,
    pub verbose: bool,
    t0: std::time::Instant,
}
const R0: u32 = 0;
const R1: u32 = 1;

fn lin(t: Vec<(u32, i128)>, c: i128) -> Lin {
    let mut l = Lin { t, c };
    l.t.retain(|x| x.1 != 0);
    l.t.sort();
    l
}

impl<'m> V<'m> {
    pub fn new(m: &'m Module, cl: &Class, spec: Spec, seed: u64) -> Res<V<'m>> {
        let mut e = Exec::new(m, seed);
        let base = e.init_state()?;
        let b = spec.b as i128;
        let key: Vec<N> = (0..cl.key).map(|i| e.c.bsym(&format!("key{}", i), 8, false)).collect();
        let logb = (b as u64).next_power_of_two().trailing_zeros();
        let mut pmax = (1i128 << (spec.max_bytes_log2 - logb).min(100)) - 2;
        if let Some(x) = std::env::var("IRV_PMAX").ok().and_then(|s| s.parse::<u32>().ok()) {
            pmax = pmax.min(1 << x);
        }
        let p = e.c.asym("P", 0, pmax);
        let h: Vec<N> = spec.widths.iter().enumerate().map(|(j, w)| e.c.bsym(&format!("h{}", j), *w, false)).collect();
        let ahead = 5 * cl.unit + 1;
        let mut v = V {
            e,
            cl: cl.clone(),
            rep: Report::default(),
            base,
            size: 0,
            inner: 0,
            key,
            b,
            p,
            h,
            iv: vec![],
            his: Rc::new(RefCell::new(vec![])),
            ahead,
            assignable: false,
            frames: vec![],
            structural: vec![],
            spec,
            symcache: Default::default(),
            verbose: std::env::var("IRV_V").is_ok(),
            t0: std::time::Instant::now(),
        };
        v.base.rng = v.e.c.rng.clone();
        v.set_spec(true);
        let (sp, k) = (v.spec.clone(), v.key.clone());
        v.iv = (sp.iv)(&mut v.e.c, &k);
        v.set_spec(false);
        Ok(v)
    }
    fn log(&self, s: &str) {
        if self.verbose {
            eprintln!("[{}] {:.1}s {} (steps {}, nodes {}, forks {})", self.cl.id, self.t0.elapsed().as_secs_f32(), s, self.e.steps, self.e.c.nodes.len(), self.e.forks);
        }
    }
    fn set_spec(&mut self, on: bool) {
        self.e.c.spec_mode = on;
        self.e.c.match_on = !on;
    }
    fn pw(&self) -> u32 {
        self.e.pw()
    }
    fn cn(&mut self, v: u64) -> N {
        let w = self.pw();
        self.e.c.c(w, v as u128)
    }
    fn ptr(&mut self, o: u32, off: u64) -> N {
        let z = self.cn(off);
        self.e.c.ptr(o, z)
    }
    fn fresh(&mut self) -> State {
        let mut s = self.base.clone();
        self.e.c.set_rng(&s.rng);
        s.path.clear();
        s
    }
    /// all symbols created so far keep their declared range unless a state narrows them
    fn newsym(&mut self, st: &mut State, name: &str, lo: i128, hi: i128) -> u32 {
        self.e.sync_in(st);
        let key = (name.to_string(), lo, hi);
        let s = match self.symcache.get(&key) {
            Some(s) => *s,
            None => self.e.c.asym(name, lo, hi),
        };
        self.symcache.insert(key, s);
        // the state is new: it must not constrain the symbol yet
        assert!(st.rng.get(s as usize).map_or(true, |r| *r == (lo, hi)));
        st.rng = self.e.c.rng.clone();
        s
    }
    fn region(&mut self, st: &mut State, r: u32, lo: u64, size: N) -> u32 {
        let o = st.new_obj(0, OK::Region(r), "input", self.e.uninit);
        let ob = st.obj_mut(o);
        ob.szn = Some(size);
        ob.lo = lo;
        o
    }
    fn set_chain(&mut self, p0: Lin, region: u32) {
        let sp = self.spec.clone();
        let b = self.b;
        let his = self.his.clone();
        let pw = self.pw();
        let step = move |c: &mut Ctx, w: &[N], pos: &Lin| -> Vec<N> {
            let rel = Ctx::lin_add(pos, &p0, -1);
            let mut blk = vec![];
            for i in 0..b {
                let l = lin(rel.t.iter().map(|x| (x.0, x.1 * b)).collect(), rel.c * b + i);
                let off = c.lin_node(l, pw);
                blk.push(c.inb(region, off));
            }
            let cnt = lin(pos.t.iter().map(|x| (x.0, x.1 * b)).collect(), pos.c * b);
            let cnt = c.lin_node(cnt, 128);
            for (a, k) in his.borrow().iter() {
                for d in 0..2 {
                    let l = lin(pos.t.iter().map(|x| (x.0, x.1 * a)).collect(), (pos.c + d) * a + k);
                    let n = c.lin_node(l, 128);
                    c.ext(n, 64, 64);
                }
            }
            (sp.step)(c, w, &blk, cnt)
        };
        self.e.chain = Some(Chain { step: Box::new(step), widths: self.spec.widths.clone(), tags: Default::default(), fams: Default::default(), ahead: self.ahead });
    }
    /// call a driver function; safety failures are recorded under "safety"
    fn call(&mut self, st: State, f: &str, args: &[N], what: &str) -> Res<Vec<State>> {
        self.e.fails.clear();
        let r = self.e.call_fn(st, f, args);
        let fails = std::mem::take(&mut self.e.fails);
        for x in fails {
            self.rep.bad("safety", &format!("{}:{}", f, x.kind), format!("{}: {} in {}: {}", what, x.kind, x.func, x.msg), x.definite);
        }
        let r = r.map_err(|e| format!("{} [{}]: {}", f, what, e))?;
        for s in &r {
            if s.gwrites > 0 {
                self.rep.bad("copy", "no-global-state", format!("{} writes to global state", f), false);
            }
        }
        Ok(r)
    }
    fn one(&mut self, st: State, f: &str, args: &[N], what: &str) -> Res<State> {
        let mut v = self.call(st, f, args, what)?;
        if v.len() != 1 {
            if v.is_empty() {
                return Err(format!("{} [{}] has no normal return", f, what));
            }
            return Err(format!("{} [{}] splits into {} paths", f, what, v.len()));
        }
        Ok(v.pop().unwrap())
    }
    /// the objects an object consists of: first those reached through structural pointers, then the framed heap blocks
    fn objs_of(&self, st: &State, main: u32) -> Vec<u32> {
        let mut l = self.core_of(st, main);
        let core = l.len();
        for (o, x, _) in &self.frames {
            if *o < core {
                let c = st.objs[l[*o] as usize].get((*x + if self.e.m.big { self.pw() as usize / 8 - 1 } else { 0 }) as u64);
                self.reach(st, c, &mut l);
            }
        }
        self.close(st, &mut l, core, true);
        l
    }
    fn core_of(&self, st: &State, main: u32) -> Vec<u32> {
        let mut l = vec![main];
        self.close(st, &mut l, 0, false);
        l
    }
    fn reach(&self, st: &State, c: Cell, l: &mut Vec<u32>) {
        if c.k == 0 && self.e.c.op(c.n) == O::Ptr {
            let o = self.e.c.nd(c.n).imm as u32;
            if st.objs[o as usize].kind == OK::Heap && !l.contains(&o) {
                l.push(o);
            }
        }
    }
    fn close(&self, st: &State, l: &mut Vec<u32>, from: usize, all: bool) {
        let pb = self.pw() as usize / 8;
        let mut i = from;
        while i < l.len() {
            let ob = &st.objs[l[i] as usize];
            if ob.alive && ob.szn.is_none() {
                for x in 0..ob.size {
                    if !all && self.frames.iter().any(|f| f.0 == i && (x as usize) >= f.1 && (x as usize) < f.1 + pb) {
                        continue;
                    }
                    self.reach(st, ob.get(x), l);
                }
            }
            i += 1;
        }
    }
    fn deep(&mut self, st: &State, n: N, memo: &mut FxMap<N, N>) -> N {
        let _ = st;
        let e = HashMap::default();
        let mask = self.e.c.rng.iter().enumerate().fold(0u64, |a, (i, r)| if r.0 == r.1 { a | 1 << (i % 64) } else { a });
        self.e.c.subst_m(n, &e, memo, mask)
    }
    fn nlin(&self, st: &State, l: &Lin) -> Lin {
        let mut l = l.clone();
        for s in &st.subst {
            l = self.e.subst_lin(&l, s);
        }
        let mut r = Lin { t: vec![], c: l.c };
        for (s, k) in &l.t {
            let (lo, hi) = st.rng[*s as usize];
            if lo == hi {
                r.c += k * lo;
            } else {
                r.t.push((*s, *k));
            }
        }
        r
    }
    // ------------------------------------------------------------------ templates
    /// instantiate a template; words/pos/tail coordinate 0
    fn inst(&mut self, st: &mut State, tm: &Tm, words: &[N], pos: &Lin, fin: &[N], out: &[N]) -> Vec<u32> {
        let un = self.e.uninit;
        let mut ids = vec![];
        for (i, o) in tm.objs.iter().enumerate() {
            let k = if i == 0 { OK::Driver } else { OK::Heap };
            ids.push(st.new_obj(o.len() as u64, k, if i == 0 { "object" } else { "heap" }, un));
        }
        for (i, o) in tm.objs.iter().enumerate() {
            for (x, t) in o.iter().enumerate() {
                let c = self.tcell(t, words, pos, fin, out, &ids, &Lin::default());
                st.obj_mut(ids[i]).set(x as u64, c);
            }
        }
        st.rng = self.e.c.rng.clone();
        ids
    }
    fn tcell(&mut self, t: &T, words: &[N], pos: &Lin, fin: &[N], out: &[N], ids: &[u32], tail0: &Lin) -> Cell {
        let scale = |l: &Lin, a: i128, c: i128| lin(l.t.iter().map(|x| (x.0, x.1 * a)).collect(), l.c * a + c);
        match t {
            T::Const(v) => Cell { n: self.e.c.c(8, *v as u128), k: 0 },
            T::Tail(i) => {
                let w = self.pw();
                let l = lin(tail0.t.clone(), tail0.c + *i as i128);
                let o = self.e.c.lin_node(l, w);
                Cell { n: self.e.c.inb(R1, o), k: 0 }
            }
            T::Chain(j, b) => Cell { n: words[*j as usize], k: *b as u16 },
            T::Fin(j, b) => Cell { n: fin[*j as usize], k: *b as u16 },
            T::Out(i) => Cell { n: out[*i as usize], k: 0 },
            T::Param(i) => Cell { n: self.key[*i as usize], k: 0 },
            T::Lin { w, a, c, k } => {
                let l = scale(pos, *a, *c);
                Cell { n: self.e.c.lin_node(l, *w), k: *k as u16 }
            }
            T::Hi { a, c, k } => {
                let l = scale(pos, *a, *c);
                let n = self.e.c.lin_node(l, 128);
                Cell { n: self.e.c.ext(n, 64, 64), k: *k as u16 }
            }
            T::Ptr { o, off, k } => Cell { n: self.ptr(ids[*o as usize], *off), k: *k as u16 },
            T::Frame(g, k) => Cell { n: self.frames[*g as usize].2, k: *k as u16 },
            T::Any => Cell { n: self.e.c.bsym("any", 8, true), k: 0 },
            T::Uninit => Cell { n: self.e.uninit, k: 0 },
        }
    }
    /// compare a state against a template; returns the cells that do not match
    #[allow(clippy::too_many_arguments)]
    fn check(&mut self, st: &State, main: u32, tm: &Tm, pos: &Lin, tail0: &Lin, words: Option<&[N]>, fin: &[N], out: &[N]) -> Res<Vec<(usize, usize, String)>> {
        self.e.c.set_rng(&st.rng);
        let ids = self.objs_of(st, main);
        if ids.len() != tm.objs.len() || ids.iter().zip(&tm.objs).any(|(i, o)| st.objs[*i as usize].size != o.len() as u64) {
            return Err(format!("shape: objects {:?} expected {:?}", ids.iter().map(|i| st.objs[*i as usize].size).collect::<Vec<_>>(), tm.objs.iter().map(|o| o.len()).collect::<Vec<_>>()));
        }
        let (pos, tail0) = (self.nlin(st, pos), self.nlin(st, tail0));
        let mut bad = vec![];
        let mut memo: FxMap<N, N> = FxMap::default();
        for (i, o) in tm.objs.iter().enumerate() {
            let ob = st.objs[ids[i] as usize].clone();
            if !ob.alive {
                return Err("dead object".into());
            }
            for (x, t) in o.iter().enumerate() {
                let c = ob.get(x as u64);
                match t {
                    T::Any => {
                        if c.n == self.e.uninit {
                            bad.push((i, x, "uninitialised".into()));
                        }
                        continue;
                    }
                    T::Uninit => continue,
                    T::Chain(j, b) if words.is_none() => {
                        if !self.is_chain(st, c, *j as usize, *b, &pos, &mut memo) {
                            let s = self.e.c.show(c.n, 3);
                            bad.push((i, x, s));
                        }
                        continue;
                    }
                    _ => {}
                }
                let w: Vec<N> = words.map(|w| w.to_vec()).unwrap_or_default();
                self.set_spec(true);
                let ex = self.tcell(t, &w, &pos, fin, out, &ids, &tail0);
                self.set_spec(false);
                if ex == c {
                    continue;
                }
                if let T::Ptr { .. } = t {
                    if c.k == ex.k && self.e.c.norm_ptr(c.n) == self.e.c.norm_ptr(ex.n) {
                        continue;
                    }
                    bad.push((i, x, "pointer".into()));
                    continue;
                }
                if c.n == self.e.uninit {
                    bad.push((i, x, "uninitialised".into()));
                    continue;
                }
                if !self.same_cell(st, c, ex, &mut memo) {
                    if self.verbose && matches!(t, T::Fin(..) | T::Out(_)) {
                        let (p, q) = self.e.c.first_diff(c.n, ex.n);
                        let e = self.e.c.smp[p as usize] == self.e.c.smp[q as usize];
                        self.log(&format!("differ ({}):\n  {}\n  {}", e, self.e.c.show(p, 5), self.e.c.show(q, 5)));
                    }
                    let s = self.e.c.show(c.n, 3);
                    bad.push((i, x, s));
                }
            }
        }
        Ok(bad)
    }
    fn same_cell(&mut self, st: &State, c: Cell, ex: Cell, memo: &mut FxMap<N, N>) -> bool {
        let cn = self.deep(st, c.n, memo);
        let en = self.deep(st, ex.n, memo);
        if cn == en && c.k == ex.k {
            return true;
        }
        match (self.e.byte_of(Cell { n: cn, k: c.k }), self.e.byte_of(Cell { n: en, k: ex.k })) {
            (Some(a), Some(b)) => {
                if a == b {
                    return true;
                }
                if matches!(self.e.c.op(a), O::Const) && matches!(self.e.c.op(b), O::Const) {
                    return false;
                }
                let path = st.path.clone();
                self.e.c.decide_eq(a, b, &path).0 == Verdict::Proved
            }
            _ => false,
        }
    }
    fn is_chain(&mut self, st: &State, c: Cell, j: usize, b: u8, pos: &Lin, memo: &mut FxMap<N, N>) -> bool {
        let mut cn = c.n;
        for deep in [false, true] {
            if deep {
                cn = self.deep(st, c.n, memo);
            }
            let (n, k) = (cn, c.k);
            let tags = match self.e.chain.as_ref().and_then(|ch| ch.tags.get(&n)) {
                Some(t) => t.clone(),
                None => continue,
            };
            for (jj, p) in tags {
                if jj == j && k == b as u16 && self.nlin(st, &p) == *pos {
                    return true;
                }
            }
        }
        // fall back: find the specification word and prove equality
        let mut cand = vec![];
        if let Some(ch) = self.e.chain.as_ref() {
            for (n, t) in ch.tags.iter() {
                for (jj, p) in t {
                    if *jj == j && self.nlin(st, p) == *pos {
                        cand.push(*n);
                    }
                }
            }
        }
        for n in cand {
            if self.verbose && std::env::var("IRV_CHAIN").is_ok() {
                eprintln!("chain candidate\n   {}\n   {}", self.e.c.show(cn, 5), self.e.c.show(n, 5));
            }
            if self.same_cell(st, c, Cell { n, k: b as u16 }, memo) {
                return true;
            }
        }
        false
    }
    /// abstract a concrete-valued state pair (totals B+n and 2B+n) to a template
    fn infer(&mut self, s1: &State, s2: &State, main: u32, n: usize, k1: usize, w1: &[N], w2: &[N]) -> Res<Tm> {
        let (i1, i2) = (self.objs_of(s1, main), self.objs_of(s2, main));
        if i1.len() != i2.len() {
            return Err("object shape depends on the message".into());
        }
        let mut bm: HashMap<N, (T, N)> = HashMap::default(); // byte in s1 -> (kind, byte expected in s2)
        for i in (0..n).rev() {
            let (a, b) = (self.cn(k1 as u64 * self.b as u64 + i as u64), self.cn((k1 as u64 + 1) * self.b as u64 + i as u64));
            let (x, y) = (self.e.c.inb(R0, a), self.e.c.inb(R0, b));
            bm.insert(x, (T::Tail(i as u32), y));
        }
        for (i, k) in self.key.clone().iter().enumerate() {
            bm.insert(*k, (T::Param(i as u32), *k));
        }
        for j in 0..w1.len() {
            for b in 0..self.spec.widths[j] / 8 {
                let (x, y) = (self.e.c.ext(w1[j], 8 * b, 8), self.e.c.ext(w2[j], 8 * b, 8));
                bm.insert(x, (T::Chain(j as u16, b as u8), y));
            }
        }
        self.frame_bytes(&mut bm);
        let mut objs = vec![];
        for (a, b) in i1.iter().zip(&i2) {
            let (oa, ob) = (s1.objs[*a as usize].clone(), s2.objs[*b as usize].clone());
            if oa.size != ob.size {
                return Err("object size depends on the message".into());
            }
            let mut l = vec![];
            for x in 0..oa.size {
                let (c, d) = (oa.get(x), ob.get(x));
                l.push(self.infer_cell(c, d, &i1, &i2, &bm, k1));
            }
            objs.push(l);
        }
        Ok(Tm { objs })
    }
    fn infer_cell(&mut self, c: Cell, d: Cell, i1: &[u32], i2: &[u32], bm: &HashMap<N, (T, N)>, k1: usize) -> T {
        let un = self.e.uninit;
        if c.n == un || d.n == un {
            return T::Uninit;
        }
        let (oc, od) = (self.e.c.op(c.n), self.e.c.op(d.n));
        if oc == O::Ptr && od == O::Ptr {
            let (a, b) = (self.e.c.nd(c.n).clone(), self.e.c.nd(d.n).clone());
            let (p, q) = (i1.iter().position(|x| *x == a.imm as u32), i2.iter().position(|x| *x == b.imm as u32));
            if let (Some(p), Some(q)) = (p, q) {
                if p == q && self.e.c.cval(a.a[0]) == self.e.c.cval(b.a[0]) && c.k == d.k {
                    if let Some(off) = self.e.c.cval(a.a[0]) {
                        return T::Ptr { o: p as u32, off: off as u64, k: c.k as u8 };
                    }
                }
            }
            return T::Any;
        }
        let (x, y) = match (self.e.byte_of(c), self.e.byte_of(d)) {
            (Some(x), Some(y)) => (x, y),
            _ => return T::Any,
        };
        if let Some((t, z)) = bm.get(&x) {
            if *z == y {
                return t.clone();
            }
        }
        if let (Some(u), Some(v)) = (self.e.c.cval(c.n), self.e.c.cval(d.n)) {
            let w = self.e.c.w(c.n);
            if u == v && w == self.e.c.w(d.n) {
                return T::Const(self.e.c.cval(x).unwrap() as u8);
            }
            if w == self.e.c.w(d.n) && c.k == d.k {
                let a = crate::ir::sext(mask(v.wrapping_sub(u), w), w);
                let c0 = crate::ir::sext(mask(u.wrapping_sub((a as u128).wrapping_mul(k1 as u128)), w), w);
                return T::Lin { w, a, c: c0, k: c.k as u8 };
            }
        }
        if let (Some(u), Some(v)) = (self.e.c.cval(x), self.e.c.cval(y)) {
            if u == v {
                return T::Const(u as u8);
            }
        }
        T::Any
    }
    // ------------------------------------------------------------------ the verification of one class
    fn ns(&self) -> std::ops::Range<usize> {
        if self.spec.lazy {
            1..self.spec.b + 1
        } else {
            0..self.spec.b
        }
    }
    fn ctor_state(&mut self) -> Res<(State, u32)> {
        let mut st = self.fresh();
        let o = st.new_obj(self.size, OK::Driver, "object", self.e.uninit);
        let p = self.ptr(o, 0);
        let mut args = vec![p];
        if self.cl.key > 0 {
            let k = st.new_obj(self.cl.key as u64, OK::Const, "key", self.e.uninit);
            for (i, b) in self.key.clone().iter().enumerate() {
                st.obj_mut(k).set(i as u64, Cell { n: *b, k: 0 });
            }
            args.push(self.ptr(k, 0));
        } else if !self.cl.pre.is_empty() {
            args.push(self.cn(0));
        }
        let mut st = self.one(st, "k_ctor", &args, "constructor")?;
        st.gwrites = 0;
        // the caller's key buffer may be gone afterwards
        if self.cl.key > 0 {
            let k = self.e.c.nd(args[1]).imm as u32;
            let un = self.e.uninit;
            let ob = st.obj_mut(k);
            ob.alive = false;
            for i in 0..self.cl.key {
                ob.set(i as u64, Cell { n: un, k: 0 });
            }
        }
        Ok((st, o))
    }
    pub fn verify(&mut self) {
        let r = if self.cl.id == "CLI" { self.verify_cli() } else if self.cl.id.starts_with("TupleHash") { self.verify_tuple() } else if self.cl.id.starts_with("CShake_") { self.verify_shell() } else { self.verify_inner() };
        if let Err(e) = r {
            self.rep.bad("engine", "unsupported", e, false);
        }
    }
    fn verify_inner(&mut self) -> Res<()> {
        let st = self.fresh();
        let s = self.one(st, "k_size", &[], "sizeof")?;
        self.size = self.e.c.cval(s.ret.ok_or("size")?).ok_or("size")? as u64;
        let st = self.fresh();
        let s = self.one(st, "k_assignable", &[], "assignable")?;
        self.assignable = self.e.c.cval(s.ret.ok_or("asg")?) == Some(1);
        self.log("start");
        let (s0, main) = self.ctor_state()?;
        // ---- infer the representation invariant from two symbolic-content runs per tail length
        let p = self.ptr(main, 0);
        let s1 = self.one(s0.clone(), "k_fin", &[p], "finalize of a fresh object")?;
        self.split_frames(&s0, &s1, main)?;
        let s1 = self.framed(&s0, main);
        let fam = self.infer_family(&s1, main, "T")?;
        self.log("inferred");
        let fam = if std::env::var("IRV_SKIP").is_ok() { fam } else { self.induct(fam)? };
        // ctor establishes Inv(0,0)
        let (s0, main) = self.ctor_state()?;
        let sh0 = self.shape_of(&s0, main);
        let t0 = self.apply(&fam.tm[0], &sh0);
        self.check_zero(&s0, main, &t0, "ctor", "constructor establishes the invariant")?;
        self.rep.done.extend(["ctor", "step"]);
        self.log("addData proved");
        let f = self.finals(&fam, &sh0)?;
        let mut abs = vec![sh0];
        let mut fins: Vec<Tm> = vec![f];
        // the heap shapes an object can reach are explored to a fixpoint
        let mut err = None;
        let (mut na, mut nf) = (0, 0);
        let (mut acc, mut res, mut cop, mut fin) = (true, true, true, true);
        while na < abs.len() || nf < fins.len() {
            if abs.len() > 8 || fins.len() > 8 {
                err = Some("too many heap shapes".to_string());
                (res, cop, fin) = (false, false, false);
                break;
            }
            if na < abs.len() {
                let sh = abs[na].clone();
                if na > 0 {
                    match self.finals(&fam, &sh) {
                        Ok(f) => {
                            if !fins.contains(&f) {
                                fins.push(f);
                            }
                        }
                        Err(e) => {
                            fin = false;
                            err = err.or(Some(e));
                        }
                    }
                }
                self.log(&format!("finalize, shape {}", na));
                if let Err(e) = self.resets(&fam, Some(&sh), None, &mut abs) {
                    res = false;
                    err = err.or(Some(e));
                }
                na += 1;
            } else {
                let f = fins[nf].clone();
                if let Err(e) = self.accessors(&f) {
                    acc = false;
                    err = err.or(Some(e));
                }
                if let Err(e) = self.resets(&fam, None, Some(&f), &mut abs) {
                    res = false;
                    err = err.or(Some(e));
                }
                nf += 1;
                self.log(&format!("accessors, reset of final {}", nf));
            }
            if na == abs.len() && nf == fins.len() {
                if let Err(e) = self.copies(&fam, &mut abs, &mut fins) {
                    cop = false;
                    err = err.or(Some(e));
                }
                self.log(&format!("copies; shapes {} {}", abs.len(), fins.len()));
            }
        }
        for (ok, c) in [(fin, "fin"), (acc, "out"), (acc, "acc"), (res, "reset"), (cop, "copy")] {
            if ok {
                self.rep.done.push(c);
            }
        }
        self.log("finalize, accessors, reset, copies proved");
        let mut eq = true;
        for i in 0..fins.len() {
            for j in i..fins.len() {
                if let Err(e) = self.equality(&fins[i].clone(), &fins[j].clone()) {
                    eq = false;
                    err = err.or(Some(e));
                }
            }
        }
        if eq {
            self.rep.done.push("eq");
        }
        match self.overloads(&fam, &abs[0].clone()) {
            Ok(()) => self.rep.done.push("overload"),
            Err(e) => err = err.or(Some(e)),
        }
        self.log("done");
        if let Some(e) = err {
            return Err(e);
        }
        self.rep.done.push("safety");
        Ok(())
    }
    // ------------------------------------------------------------------ heap shapes
    fn find_frames(&mut self, st: &State, main: u32) {
        let pb = self.pw() as usize / 8;
        let mut i = 0;
        loop {
            // only objects behind structural pointers are parts of the object itself
            let l = self.core_of(st, main);
            if i >= l.len() {
                break;
            }
            let ob = st.objs[l[i] as usize].clone();
            for x in (0..ob.size as usize).step_by(pb) {
                let c = ob.get((x + if self.e.m.big { pb - 1 } else { 0 }) as u64);
                if c.k == 0 && self.e.c.op(c.n) == O::Ptr && st.objs[self.e.c.nd(c.n).imm as usize].kind == OK::Heap {
                    if !self.structural.contains(&(i, x)) && !self.frames.iter().any(|f| f.0 == i && f.1 == x) {
                        let n = self.e.c.bsym(&format!("frame{}_{}", i, x), self.pw(), false);
                        self.frames.push((i, x, n));
                    }
                }
            }
            i += 1;
        }
        self.frames.sort();
    }
    /// the state with the framed cells made opaque
    fn framed(&self, st: &State, main: u32) -> State {
        let mut s = st.clone();
        let l = self.core_of(st, main);
        for (o, x, n) in &self.frames {
            let pb = self.pw() as usize / 8;
            for k in 0..pb {
                s.obj_mut(l[*o]).set((x + k) as u64, Cell { n: *n, k: if self.e.m.big { pb - 1 - k } else { k } as u16 });
            }
        }
        s
    }
    fn frame_bytes(&mut self, bm: &mut HashMap<N, (T, N)>) {
        for (g, (_, _, n)) in self.frames.clone().into_iter().enumerate() {
            for k in 0..self.pw() / 8 {
                let y = self.e.c.ext(n, 8 * k, 8);
                bm.insert(y, (T::Frame(g as u16, k as u8), y));
            }
        }
    }
    /// the heap blocks behind the framed cells; contents that are not constant are taken as indeterminate
    fn shape_of(&mut self, st: &State, main: u32) -> Shape {
        let ids = self.objs_of(st, main);
        let core = self.core_of(st, main);
        let mut bm: HashMap<N, (T, N)> = HashMap::default();
        for (i, k) in self.key.clone().iter().enumerate() {
            bm.insert(*k, (T::Param(i as u32), *k));
        }
        let mut sh = Shape::default();
        for (o, x, _) in self.frames.clone() {
            for k in 0..self.pw() as usize / 8 {
                let c = match core.get(o) {
                    Some(i) => st.objs[*i as usize].get((x + k) as u64),
                    None => Cell { n: self.e.uninit, k: 0 },
                };
                let t = self.infer_cell(c, c, &ids, &ids, &bm, 1);
                sh.cells.push(t);
            }
        }
        for i in &ids[core.len()..] {
            let ob = st.objs[*i as usize].clone();
            let l = (0..ob.size)
                .map(|x| {
                    let c = ob.get(x);
                    match self.infer_cell(c, c, &ids, &ids, &bm, 1) {
                        t @ (T::Const(_) | T::Param(_)) => t,
                        _ => T::Uninit,
                    }
                })
                .collect();
            sh.objs.push(l);
        }
        sh
    }
    fn apply(&self, t: &Tm, sh: &Shape) -> Tm {
        let mut t = t.clone();
        let pb = self.pw() as usize / 8;
        for (g, (o, x, _)) in self.frames.iter().enumerate() {
            for k in 0..pb {
                t.objs[*o][x + k] = sh.cells[g * pb + k].clone();
            }
        }
        t.objs.extend(sh.objs.iter().cloned());
        t
    }
    /// which pointers does addData follow? those blocks belong to the object, the rest is framed
    fn split_frames(&mut self, s0: &State, s1: &State, main: u32) -> Res<()> {
        loop {
            self.frames.clear();
            self.find_frames(s0, main);
            self.find_frames(s1, main);
            if self.frames.is_empty() {
                return Ok(());
            }
            self.set_chain(Lin::default(), R0);
            let mut st = self.framed(s0, main);
            let sz = self.cn(self.spec.b as u64 + 1);
            let r = self.region(&mut st, R0, 0, sz);
            let (p, d) = (self.ptr(main, 0), self.ptr(r, 0));
            self.e.fails.clear();
            let _ = self.e.call_fn(st, "k_add", &[p, d, sz]);
            let fails = std::mem::take(&mut self.e.fails);
            let mut more = false;
            for f in fails {
                if let Some(i) = f.msg.find("frame") {
                    let t: String = f.msg[i + 5..].chars().take_while(|c| c.is_ascii_digit() || *c == '_').collect();
                    if let Some((o, x)) = t.split_once('_') {
                        if let (Ok(o), Ok(x)) = (o.parse(), x.parse()) {
                            if !self.structural.contains(&(o, x)) {
                                self.structural.push((o, x));
                                more = true;
                            }
                        }
                    }
                }
            }
            if !more {
                return Ok(());
            }
        }
    }
    fn infer_family(&mut self, s0: &State, main: u32, name: &str) -> Res<Fam> {
        self.set_chain(Lin::default(), R0);
        let iv = self.iv.clone();
        // two sample lengths; with one-byte blocks enough of them for every byte of the state to depend on the input
        let k1: usize = if self.b == 1 { 12 } else { 1 };
        let mut ws = vec![iv];
        for k in 0..k1 + 1 {
            let w = self.e.chain_register(&ws[k].clone(), &lin(vec![], k as i128), 1)?;
            ws.push(w);
        }
        let (w1, w2) = (ws[k1].clone(), ws[k1 + 1].clone());
        let b = self.spec.b;
        let mut tm = vec![];
        let mut missing = vec![true; self.spec.widths.iter().map(|w| *w as usize / 8).sum()];
        if self.spec.lazy {
            // Inv(0,0): the constructed object itself
            let ids = self.objs_of(s0, main);
            let mut objs = vec![];
            let mut bm = HashMap::default();
            self.frame_bytes(&mut bm);
            for i in &ids {
                let ob = s0.objs[*i as usize].clone();
                let mut l = vec![];
                for x in 0..ob.size {
                    let c = ob.get(x);
                    l.push(self.infer_cell(c, c, &ids, &ids, &bm, 1));
                }
                objs.push(l);
            }
            tm.push(Tm { objs });
        }
        for n in self.ns() {
            let mut two = vec![];
            for k in [k1, k1 + 1] {
                let mut st = s0.clone();
                let sz = self.cn((k * b + n) as u64);
                let r = self.region(&mut st, R0, 0, sz);
                let (p, d) = (self.ptr(main, 0), self.ptr(r, 0));
                let s = self.one(st, "k_add", &[p, d, sz], &format!("addData of {} bytes to a fresh object", k * b + n))?;
                two.push(s);
            }
            let t = self.infer(&two[0], &two[1], main, n, k1, &w1, &w2)?;
            let mut seen = vec![false; missing.len()];
            for o in &t.objs {
                for c in o {
                    if let T::Chain(j, b) = c {
                        let base: usize = self.spec.widths[..*j as usize].iter().map(|w| *w as usize / 8).sum();
                        seen[base + *b as usize] = true;
                    }
                }
            }
            for (i, s) in seen.iter().enumerate() {
                missing[i] &= !*s;
            }
            tm.push(t);
        }
        if missing.iter().any(|x| *x) {
            let mut base = 0;
            let mut l = vec![];
            for (j, w) in self.spec.widths.iter().enumerate() {
                if (0..*w as usize / 8).any(|b| missing[base + b]) {
                    l.push(j);
                }
                base += *w as usize / 8;
            }
            self.rep.bad("step", "chaining-words", format!("after one block the object does not hold the specified chaining word(s) {:?}", l), false);
            return Err("chaining value not found in the object".into());
        }
        Ok(Fam { name: name.into(), tm })
    }
    fn collect_his(&mut self, fam: &Fam) {
        let mut l = vec![];
        for t in &fam.tm {
            for o in &t.objs {
                for c in o {
                    if let T::Hi { a, c, .. } = c {
                        if !l.contains(&(*a, *c)) {
                            l.push((*a, *c));
                        }
                    }
                }
            }
        }
        *self.his.borrow_mut() = l;
    }
    fn register_hi(&mut self, forms: &[Lin]) {
        let his = self.his.borrow().clone();
        self.set_spec(true);
        for (a, c) in his {
            for f in forms {
                let l = lin(f.t.iter().map(|x| (x.0, x.1 * a)).collect(), f.c * a + c);
                let n = self.e.c.lin_node(l, 128);
                self.e.c.ext(n, 64, 64);
            }
        }
        self.set_spec(false);
    }
    /// weaken mismatching cells; false if a required cell cannot be weakened
    fn weaken(&mut self, fam: &mut Fam, n: usize, bad: &[(usize, usize, String)]) -> bool {
        let mut ok = true;
        for (o, x, _) in bad {
            let old = fam.tm[n].objs[*o][*x].clone();
            match old {
                T::Chain(..) | T::Tail(_) | T::Param(_) | T::Ptr { .. } | T::Frame(..) => {
                    // several cells may hold the same byte; allowed to drop only redundant copies
                    let dup = fam.tm[n].objs.iter().flatten().filter(|t| **t == old).count() > 1;
                    if dup {
                        fam.tm[n].objs[*o][*x] = T::Any;
                    } else {
                        ok = false;
                    }
                }
                T::Const(_) => {
                    // high word of a counter?
                    let z = fam.tm.iter().all(|t| matches!(t.objs[*o][*x], T::Const(0)));
                    let hi = if z { self.hi_candidate(fam, n, *o, *x) } else { None };
                    if hi.is_some() {
                        self.make_hi(fam, *o, *x);
                        continue;
                    }
                    for m in 0..fam.tm.len() {
                        if let T::Const(_) = fam.tm[m].objs[*o][*x] {
                            fam.tm[m].objs[*o][*x] = T::Any;
                        }
                    }
                }
                _ => {
                    for m in 0..fam.tm.len() {
                        let t = &mut fam.tm[m].objs[*o][*x];
                        if std::mem::discriminant(t) == std::mem::discriminant(&old) {
                            *t = T::Any;
                        }
                    }
                }
            }
        }
        ok
    }
    /// take the aligned 8 bytes around x as the upper word of the neighbouring counter
    fn make_hi(&self, fam: &mut Fam, o: usize, x: usize) {
        let m = fam.tm.len() - 1;
        let g = match self.hi_group(&fam.tm[m].objs[o], x) {
            Some((g, _)) => g,
            None => return,
        };
        for m in 0..fam.tm.len() {
            if self.spec.lazy && m == 0 {
                continue; // the initial state is concrete
            }
            for y in g..g + 8 {
                if let T::Const(0) = fam.tm[m].objs[o][y] {
                    if let Some(h) = self.hi_candidate(fam, m, o, y) {
                        fam.tm[m].objs[o][y] = h;
                    }
                }
            }
        }
    }
    /// words that are zero in the sampled states but may be the upper word of a counter
    fn propose_hi(&self, fam: &mut Fam) -> bool {
        let n = fam.tm.len() - 1;
        let mut any = false;
        for o in 0..fam.tm[n].objs.len() {
            for x in (0..fam.tm[n].objs[o].len()).step_by(4) {
                let z = x + 8 <= fam.tm[n].objs[o].len() && (x..x + 8).all(|y| fam.tm.iter().all(|t| matches!(t.objs[o][y], T::Const(0))));
                if z && self.hi_candidate(fam, n, o, x).is_some() {
                    self.make_hi(fam, o, x);
                    any = true;
                }
            }
        }
        any
    }
    /// the 8 bytes around x next to the low word of a counter: (start, start of the low word)
    fn hi_group(&self, ob: &[T], x: usize) -> Option<(usize, usize)> {
        for al in [0, 4] {
            if x < al {
                continue;
            }
            let g = (x - al) / 8 * 8 + al;
            for lo in [g as i64 - 8, g as i64 + 8] {
                if lo < 0 || lo as usize + 8 > ob.len() || g + 8 > ob.len() {
                    continue;
                }
                let lo = lo as usize;
                let first = match &ob[lo] {
                    T::Lin { w: 64, a, k, .. } if *a > 0 && a % self.b == 0 && matches!(k, 0 | 7) => *k,
                    _ => continue,
                };
                let whole = (0..8).all(|y| matches!(&ob[lo + y], T::Lin { w: 64, k, .. } if *k as usize == if first == 0 { y } else { 7 - y }));
                if whole {
                    return Some((g, lo));
                }
            }
        }
        None
    }
    fn hi_candidate(&self, fam: &Fam, n: usize, o: usize, x: usize) -> Option<T> {
        let ob = &fam.tm[n].objs[o];
        let (g, lo) = self.hi_group(ob, x)?;
        match ob[lo + (x - g)] {
            T::Lin { a, c, k, .. } => Some(T::Hi { a, c, k }),
            _ => None,
        }
    }
    fn induct(&mut self, mut fam: Fam) -> Res<Fam> {
        let n0 = self.ns().start;
        let all: Vec<usize> = if self.spec.lazy { (0..self.spec.b + 1).collect() } else { self.ns().collect() };
        let mut probe = vec![all[0], n0, all[all.len() / 2], *all.last().unwrap()];
        probe.dedup();
        let mut rounds = 0;
        'outer: loop {
            rounds += 1;
            if rounds > 40 {
                return Err("representation invariant inference did not converge".into());
            }
            self.collect_his(&fam);
            let nf = self.rep.fails.len();
            let set = if probe.is_empty() { all.clone() } else { probe.clone() };
            // chain registration for the symbolic start
            let mut cur: Option<bool> = None;
            for n in set {
                let zero = self.spec.lazy && n == 0;
                if cur != Some(zero) {
                    self.start_chain(zero)?;
                    cur = Some(zero);
                }
                let bad = match self.add_cases(&fam, n) {
                    Ok(b) => b,
                    Err(e) => {
                        if !self.e.c.late() && self.propose_hi(&mut fam) {
                            self.rep.fails.truncate(nf);
                            continue 'outer;
                        }
                        return Err(e);
                    }
                };
                if !bad.is_empty() {
                    self.rep.fails.truncate(nf);
                    // the upper word of a counter first: other mismatches may follow from it
                    let counter = bad.iter().any(|(n2, cells)| cells.iter().any(|(o, x, _)| fam.tm[*n2].objs[*o][*x] == T::Const(0) && self.hi_candidate(&fam, *n2, *o, *x).is_some()));
                    if counter && self.propose_hi(&mut fam) {
                        continue 'outer;
                    }
                    let before = fam.clone();
                    for (n2, mut cells) in bad {
                        // cells already weakened in this round are judged again in the next one
                        cells.retain(|c| fam.tm[n2].objs[c.0][c.1] == before.tm[n2].objs[c.0][c.1]);
                        if cells.is_empty() {
                            continue;
                        }
                        if self.verbose {
                            self.log(&format!("weaken n={} n'={} cells {:?} {:?}", n, n2, &cells[..cells.len().min(4)], cells.iter().take(4).map(|c| fam.tm[n2].objs[c.0][c.1].clone()).collect::<Vec<_>>()));
                        }
                        if !self.weaken(&mut fam, n2, &cells) {
                            let c: Vec<String> = cells.iter().take(3).map(|c| format!("byte {} {:?} is {}", c.1, fam.tm[n2].objs[c.0][c.1], c.2)).collect();
                            let kind = cells.iter().map(|c| fam.tm[n2].objs[c.0][c.1].clone()).find(|t| matches!(t, T::Chain(..) | T::Tail(_))).unwrap_or(T::Any);
                            let name = match kind {
                                T::Chain(..) => "chaining-value",
                                T::Tail(_) => "buffered-bytes",
                                _ => "state",
                            };
                            self.rep.bad("step", name, format!("addData from a buffer of {} bytes to one of {}: {}", n, n2, c.join("; ")), false);
                            return Err("addData does not preserve the representation invariant".into());
                        }
                    }
                    continue 'outer;
                }
            }
            if !probe.is_empty() {
                probe.clear();
                continue;
            }
            break;
        }
        Ok(fam)
    }
    fn start_chain(&mut self, zero: bool) -> Res<()> {
        self.e.c.set_rng(&self.base.rng);
        let (p0, w) = if zero { (Lin::default(), self.iv.clone()) } else { (lin(vec![(self.p, 1)], 0), self.h.clone()) };
        self.set_chain(p0.clone(), R1);
        self.e.chain_register(&w, &p0, 0)?;
        Ok(())
    }
    fn check_zero(&mut self, st: &State, main: u32, t0: &Tm, cat: &str, name: &str) -> Res<bool> {
        let iv = self.iv.clone();
        match self.check(st, main, t0, &Lin::default(), &Lin::default(), Some(&iv), &[], &[]) {
            Ok(b) if b.is_empty() => {
                self.rep.good(cat, name, 1);
                Ok(true)
            }
            Ok(b) => {
                let m: Vec<String> = b.iter().take(4).map(|c| format!("byte {} should be {:?} is {}", c.1, t0.objs[c.0][c.1], c.2)).collect();
                self.rep.bad(cat, name, m.join("; "), true);
                Ok(false)
            }
            Err(e) => {
                self.rep.bad(cat, name, e, false);
                Ok(false)
            }
        }
    }
    /// one addData obligation: start from T_n, all lengths; returns cells to weaken per end tail length
    fn add_cases(&mut self, fam: &Fam, n: usize) -> Res<Vec<(usize, Vec<(usize, usize, String)>)>> {
        let mut bad: BTreeMap<usize, Vec<(usize, usize, String)>> = BTreeMap::new();
        let b = self.b;
        let lazy = self.spec.lazy;
        let nn = n as i128;
        let u = self.cl.unit as i128;
        let qmax = if self.pw() == 64 { (1i128 << 57) / b } else { (1i128 << 30) / b };
        // (kind, description)
        let mut cases: Vec<(u32, i128)> = vec![(0, 0), (1, 0), (3, 0)];
        if b == 1 {
            cases = vec![(0, 0), (3, 0)];
            for r in 0..u {
                cases.push((2, r));
            }
        }
        if lazy && n == 0 {
            cases.push((4, 0));
        }
        for (kind, rr) in cases {
            let mut st = self.fresh();
            let zero = lazy && n == 0;
            let (pos, words) = if zero { (Lin::default(), self.iv.clone()) } else { (lin(vec![(self.p, 1)], 0), self.h.clone()) };
            // length and resulting position / tail
            let (len, newpos, tail0, nsym): (Lin, Lin, Lin, Option<(u32, i128)>);
            match kind {
                0 => {
                    let hi = if lazy { b - nn } else { b - nn - 1 };
                    let lo = if zero { 1 } else { 0 };
                    if hi < lo {
                        continue;
                    }
                    let l = self.newsym(&mut st, "L", lo, hi);
                    len = lin(vec![(l, 1)], 0);
                    newpos = pos.clone();
                    tail0 = Lin::default();
                    nsym = Some((l, nn));
                }
                1 => {
                    let q = self.newsym(&mut st, "q", 0, qmax);
                    let r = if lazy { self.newsym(&mut st, "r", 1, b) } else { self.newsym(&mut st, "r", 0, b - 1) };
                    len = lin(vec![(q, b), (r, 1)], b - nn);
                    newpos = Ctx::lin_add(&pos, &lin(vec![(q, 1)], 1), 1);
                    tail0 = lin(vec![(q, b)], b);
                    nsym = Some((r, 0));
                }
                2 => {
                    let q = self.newsym(&mut st, "q", 0, qmax / u);
                    len = lin(vec![(q, u)], rr);
                    newpos = Ctx::lin_add(&pos, &lin(vec![(q, u)], rr), 1);
                    tail0 = lin(vec![(q, u)], rr);
                    nsym = None;
                }
                _ => {
                    // empty input (null pointer / lazy initial state)
                    len = Lin::default();
                    newpos = pos.clone();
                    tail0 = Lin::default();
                    nsym = None;
                }
            }
            let ids = self.inst(&mut st, &fam.tm[n], &words, &pos, &[], &[]);
            let w = self.pw();
            let ln = self.e.c.lin_node(len.clone(), w);
            let szn = self.e.c.lin_node(Ctx::lin_add(&len, &lin(vec![], nn), 1), w);
            let d = if kind == 3 {
                self.cn(0)
            } else {
                let r = self.region(&mut st, R1, n as u64, szn);
                self.ptr(r, n as u64)
            };
            let mut forms = vec![newpos.clone(), Ctx::lin_add(&pos, &lin(vec![], 1), 1)];
            forms.dedup();
            self.register_hi(&forms);
            let obj = self.ptr(ids[0], 0);
            let what = format!("addData, {} buffered bytes, {}", n, ["input fits the buffer", "input completes blocks", "bulk input", "null pointer and zero length", "empty input"][kind as usize]);
            let outs = self.call(st, "k_add", &[obj, d, ln], &what)?;
            self.log(&format!("{} q={:?} -> {} exits, stats {:?}", what, nsym, outs.len(), self.e.c.stats));
            if outs.is_empty() {
                return Err(format!("{}: no normal return", what));
            }
            for s in outs {
                // reference to itself is returned
                let self_ok = s.ret.map_or(false, |r| self.e.c.norm_ptr(r) == obj);
                if !self_ok {
                    self.rep.bad("step", "returns-self", what.clone(), false);
                }
                let mut work = vec![s];
                if let Some((sy, _)) = nsym {
                    let s = work.pop().unwrap();
                    let (lo, hi) = s.rng[sy as usize];
                    for v in lo..=hi {
                        let mut x = s.clone();
                        x.rng[sy as usize] = (v, v);
                        work.push(x);
                    }
                }
                for s in work {
                    let n2 = match nsym {
                        Some((sy, add)) => (s.rng[sy as usize].0 + add) as usize,
                        None => n,
                    };
                    match self.check(&s, ids[0], &fam.tm[n2], &newpos, &tail0, if zero && (kind == 0 || kind >= 3) { Some(&words) } else { None }, &[], &[]) {
                        Ok(l) if l.is_empty() => self.rep.good("step", "addData preserves the representation invariant", 1),
                        Ok(l) => {
                            let e = bad.entry(n2).or_default();
                            for x in l {
                                if !e.iter().any(|y| (y.0, y.1) == (x.0, x.1)) {
                                    e.push(x);
                                }
                            }
                        }
                        Err(m) => return Err(format!("{}: {}", what, m)),
                    }
                }
            }
        }
        Ok(bad.into_iter().collect())
    }
    // ------------------------------------------------------------------ finalize
    fn finals(&mut self, fam: &Fam, sh: &Shape) -> Res<Tm> {
        let mut f: Option<Tm> = None;
        let all: Vec<usize> = (0..fam.tm.len()).take(std::env::var("IRV_SKIP").ok().map_or(usize::MAX, |s| s.parse().unwrap())).collect();
        let all: Vec<usize> = match std::env::var("IRV_FIN") {
            Ok(k) => k.split(',').map(|x| x.parse().unwrap()).collect(),
            _ => all,
        };
        // the concrete initial state of the lazy variants says least about the shape of the result: take it last
        let mut all = all;
        if self.spec.lazy && all.first() == Some(&0) {
            all.rotate_left(1);
        }
        let mut later: Vec<usize> = vec![];
        self.collect_his(fam);
        for n in all {
            if self.e.c.late() {
                return Err("time limit".into());
            }
            let zero = self.spec.lazy && n == 0;
            let mut st = self.fresh();
            let (pos, words) = if zero { (Lin::default(), self.iv.clone()) } else { (lin(vec![(self.p, 1)], 0), self.h.clone()) };
            let w = self.pw();
            let tail: Vec<N> = (0..n)
                .map(|i| {
                    let o = self.e.c.c(w, i as u128);
                    self.e.c.inb(R1, o)
                })
                .collect();
            let b = self.b;
            self.register_hi(&[pos.clone()]);
            self.set_spec(true);
            let total = self.e.c.lin_node(lin(pos.t.iter().map(|x| (x.0, x.1 * b)).collect(), pos.c * b + n as i128), 128);
            if self.e.c.op(total) == O::Lin {
                // upper words of the byte and bit counts
                let bits = self.e.c.shl_c(total, 3);
                self.e.c.ext(total, 64, 64);
                self.e.c.ext(bits, 64, 64);
            }
            let sp = self.spec.clone();
            let fw = (sp.fin)(&mut self.e.c, &words, &tail, total);
            let out = (sp.out)(&mut self.e.c, &fw);
            self.set_spec(false);
            let tm = self.apply(&fam.tm[n], sh);
            let ids = self.inst(&mut st, &tm, &words, &pos, &[], &[]);
            let obj = self.ptr(ids[0], 0);
            let what = format!("finalize with {} buffered bytes", n);
            let ends = self.call(st, "k_fin", &[obj], &what)?;
            if ends.is_empty() {
                return Err(format!("k_fin [{}] has no normal return", what));
            }
            for s in ends {
                if s.ret.map_or(true, |r| self.e.c.norm_ptr(r) != obj) {
                    self.rep.bad("fin", "returns-self", what.clone(), false);
                }
                if f.is_none() {
                    // infer the post-state template
                    f = Some(self.infer_final(&s, ids[0], &fw, &out));
                }
                if self.verbose {
                    let v: Vec<(N, N)> = self.e.c.failed_pairs.drain(..).collect();
                    self.log(&format!("{}: {} pairs failed", what, v.len()));
                    for (i, c) in v.iter().take(8) {
                        eprintln!("   impl {}\n   spec {}", self.e.c.show(*i, 4), self.e.c.show(*c, 4));
                    }
                }
                let t = f.clone().unwrap();
                match self.check(&s, ids[0], &t, &Lin::default(), &Lin::default(), Some(&[]), &fw, &out) {
                    Ok(bad) => {
                        let mut good = true;
                        for (o, x, m) in &bad {
                            let cell = &mut f.as_mut().unwrap().objs[*o][*x];
                            match cell {
                                T::Fin(..) | T::Out(_) | T::Param(_) | T::Ptr { .. } => {
                                    good = false;
                                    let msg = format!("{}: byte {} should be {:?}, is {}", what, x, cell, m);
                                    self.rep.bad("fin", "final-words", msg, false);
                                }
                                _ => *cell = T::Any,
                            }
                        }
                        if good {
                            later.push(n);
                            self.rep.good("fin", "finalize yields the specified final words", 1);
                        }
                    }
                    Err(e) => return Err(format!("{}: {}", what, e)),
                }
            }
        }
        let f = f.unwrap();
        // every final word must be present
        let mut have = HashSet::default();
        let mut outs = HashSet::default();
        for c in f.objs.iter().flatten() {
            match c {
                T::Fin(j, b) => {
                    have.insert((*j, *b));
                }
                T::Out(i) => {
                    outs.insert(*i);
                }
                _ => {}
            }
        }
        let full = self.spec.fwidths.iter().enumerate().all(|(j, w)| (0..*w / 8).all(|b| have.contains(&(j as u16, b as u8))));
        let fullo = (0..self.spec.outlen).all(|i| outs.contains(&(i as u16)));
        if !full && !fullo {
            if self.verbose {
                let miss: Vec<usize> = (0..self.spec.outlen).filter(|i| !outs.contains(&(*i as u16))).collect();
                self.log(&format!("output bytes not found {:?}, objects {:?}", miss, f.objs.iter().map(|o| o.len()).collect::<Vec<_>>()));
                self.log(&format!("{:?}", f.objs));
            }
            self.rep.bad("fin", "final-words", "after finalize the object does not hold the specified result".into(), false);
            return Err("the result is not found in the finalized object".into());
        }
        Ok(f)
    }
    fn infer_final(&mut self, s: &State, main: u32, fw: &[N], out: &[N]) -> Tm {
        let mut bm: HashMap<N, (T, N)> = HashMap::default();
        for (i, x) in out.iter().enumerate().rev() {
            bm.insert(*x, (T::Out(i as u16), *x));
        }
        for (j, x) in fw.iter().enumerate() {
            for b in 0..self.e.c.w(*x) / 8 {
                let y = self.e.c.ext(*x, 8 * b, 8);
                bm.insert(y, (T::Fin(j as u16, b as u8), y));
            }
        }
        for (i, k) in self.key.clone().iter().enumerate() {
            bm.insert(*k, (T::Param(i as u32), *k));
        }
        let l = self.objs_of(s, main);
        let mut objs = vec![];
        for i in &l {
            let ob = s.objs[*i as usize].clone();
            let mut v = vec![];
            for x in 0..ob.size {
                let c = ob.get(x);
                let heap = if *i == main { None } else { self.e.byte_of(c).and_then(|y| out.iter().position(|o| *o == y)) };
                v.push(match heap {
                    Some(k) => T::Out(if out.get(x as usize).map_or(false, |o| *o == out[k]) { x as u16 } else { k as u16 }),
                    None => self.infer_cell(c, c, &l, &l, &bm, 1),
                });
            }
            objs.push(v);
        }
        Tm { objs }
    }
    fn final_inst(&mut self, st: &mut State, f: &Tm, tag: &str) -> (Vec<u32>, Vec<N>, Vec<N>) {
        let ws = self.spec.fwidths.clone();
        let fw: Vec<N> = ws.iter().enumerate().map(|(j, w)| self.e.c.bsym(&format!("{}{}", tag, j), *w, false)).collect();
        let ids = self.final_with(st, f, &fw);
        let sp = self.spec.clone();
        self.set_spec(true);
        let out = (sp.out)(&mut self.e.c, &fw);
        self.set_spec(false);
        (ids, fw, out)
    }
    fn final_with(&mut self, st: &mut State, f: &Tm, fw: &[N]) -> Vec<u32> {
        let sp = self.spec.clone();
        self.set_spec(true);
        let out = (sp.out)(&mut self.e.c, fw);
        self.set_spec(false);
        self.inst(st, f, &[], &Lin::default(), fw, &out)
    }
    // ------------------------------------------------------------------ accessors
    fn same(&mut self, a: N, b: N) -> (bool, bool) {
        if a == b {
            return (true, false);
        }
        if self.e.c.w(a) != self.e.c.w(b) {
            return (false, true);
        }
        let (v, _) = self.e.c.decide_eq(a, b, &[]);
        (v == Verdict::Proved, v == Verdict::Refuted)
    }
    fn unchanged(&mut self, before: &State, after: &State, ids: &[u32], what: &str) {
        for i in ids {
            let (a, b) = (&before.objs[*i as usize], &after.objs[*i as usize]);
            let same = b.alive && (0..a.size).all(|x| a.get(x) == b.get(x));
            if !same {
                self.rep.bad("acc", "const", format!("{} changes the object", what), false);
                return;
            }
        }
        self.rep.good("acc", "reading does not change the object", 1);
    }
    fn accessors(&mut self, f: &Tm) -> Res<()> {
        let mut st = self.fresh();
        let (ids, _fw, out) = self.final_inst(&mut st, f, "W");
        let obj = self.ptr(ids[0], 0);
        let d = out.len();
        let mut fns = vec!["k_vec", "k_str"];
        if self.cl.arr {
            fns.insert(0, "k_arr");
        }
        let nib = self.e.c.table(4, 8, b"0123456789abcdef".iter().map(|x| *x as u128).collect());
        let first = fns[0];
        for fun in fns {
            let mut s = st.clone();
            let want: Vec<N> = if fun == "k_str" {
                let mut v = vec![];
                for x in &out {
                    for sh in [4, 0] {
                        let y = self.e.c.ext(*x, sh, 4);
                        v.push(self.e.c.tab(nib, y));
                    }
                }
                v
            } else {
                out.clone()
            };
            let cat = if fun == first { "out" } else { "acc" };
            let o = s.new_obj(want.len() as u64 + 64, OK::Driver, "result", self.e.uninit);
            let op = self.ptr(o, 0);
            let s2 = self.one(s, fun, &[obj, op], fun)?;
            if s2.ret.and_then(|r| self.e.c.cval(r)) != Some(want.len() as u128) {
                let m = format!("length is {}", s2.ret.map(|r| self.e.c.show(r, 2)).unwrap_or_default());
                self.rep.bad(cat, &format!("{}-length", fun), m, true);
                continue;
            }
            let mut all = true;
            for (i, x) in want.iter().enumerate() {
                let c = s2.objs[o as usize].get(i as u64);
                let y = match self.e.byte_of(c) {
                    Some(y) if c.n != self.e.uninit => y,
                    _ => {
                        all = false;
                        self.rep.bad(cat, fun, format!("element {} is not set", i), true);
                        continue;
                    }
                };
                let (ok, refuted) = self.same(y, *x);
                if !ok {
                    all = false;
                    let m = format!("element {}: {} expected {}", i, self.e.c.show(y, 3), self.e.c.show(*x, 3));
                    self.rep.bad(cat, fun, m, refuted);
                }
            }
            if all {
                self.rep.good(cat, &format!("{} returns the specified digest", fun), want.len() as u64);
            }
            self.unchanged(&st, &s2, &ids, fun);
        }
        for (fun, w) in [("k_op8", 8), ("k_op16", 16), ("k_op32", 32), ("k_op64", 64), ("k_hash", self.pw())] {
            let s2 = self.one(st.clone(), fun, &[obj], fun)?;
            let k = d.min(w as usize / 8);
            let v = if k == 0 { self.e.c.c(w, 0) } else { self.e.c.cat(out[..k].to_vec()) };
            let v = self.e.c.zext(v, w);
            let r = s2.ret.ok_or("no value")?;
            let (ok, refuted) = self.same(r, v);
            if ok {
                self.rep.good("acc", &format!("{} is the big-endian prefix", fun), 1);
            } else {
                let m = format!("{} expected {}", self.e.c.show(r, 4), self.e.c.show(v, 4));
                self.rep.bad("acc", fun, m, refuted);
            }
            self.unchanged(&st, &s2, &ids, fun);
        }
        Ok(())
    }
    // ------------------------------------------------------------------ reset, copies
    fn resets(&mut self, fam: &Fam, sh: Option<&Shape>, f: Option<&Tm>, abs: &mut Vec<Shape>) -> Res<()> {
        if let Some(sh) = sh {
            for n in 0..fam.tm.len() {
                let mut st = self.fresh();
                let zero = self.spec.lazy && n == 0;
                let (pos, words) = if zero { (Lin::default(), self.iv.clone()) } else { (lin(vec![(self.p, 1)], 0), self.h.clone()) };
                let tm = self.apply(&fam.tm[n], sh);
                let ids = self.inst(&mut st, &tm, &words, &pos, &[], &[]);
                let obj = self.ptr(ids[0], 0);
                let s = self.one(st, "k_reset", &[obj], "reset while absorbing")?;
                self.zero_shape(&s, ids[0], fam, "reset of an absorbing object re-establishes Inv(0,0)", abs)?;
            }
        }
        if let Some(f) = f {
            let mut st = self.fresh();
            let (ids, _, _) = self.final_inst(&mut st, f, "W");
            let obj = self.ptr(ids[0], 0);
            let s = self.one(st, "k_reset", &[obj], "reset after finalize")?;
            self.zero_shape(&s, ids[0], fam, "reset of a finalized object re-establishes Inv(0,0)", abs)?;
        }
        Ok(())
    }
    fn zero_shape(&mut self, s: &State, o: u32, fam: &Fam, name: &str, abs: &mut Vec<Shape>) -> Res<()> {
        let sh = self.shape_of(s, o);
        let t = self.apply(&fam.tm[0], &sh);
        if self.check_zero(s, o, &t, "reset", name)? && !abs.contains(&sh) {
            abs.push(sh);
        }
        Ok(())
    }
    /// cells of dst must equal the cells src had, except where the template does not care
    fn copied(&mut self, before: &State, src: u32, after: &State, dst: u32, tm: &Tm, what: &str, src_kept: bool) {
        let a = &before.objs[src as usize];
        let b = &after.objs[dst as usize];
        let mut bad = None;
        for (x, t) in tm.objs[0].iter().enumerate() {
            if matches!(t, T::Any | T::Uninit | T::Ptr { .. }) || self.frames.iter().any(|f| f.0 == 0 && x >= f.1 && x < f.1 + self.pw() as usize / 8) {
                continue;
            }
            let (c, d) = (a.get(x as u64), b.get(x as u64));
            if c == d {
                continue;
            }
            let (p, q) = (self.e.byte_of(c), self.e.byte_of(d));
            if let (Some(p), Some(q)) = (p, q) {
                if d.n != self.e.uninit && self.same(p, q).0 {
                    continue;
                }
            }
            bad = Some(x);
            break;
        }
        if let Some(x) = bad {
            self.rep.bad("copy", what, format!("byte {} ({:?}) differs from the source", x, tm.objs[0][x]), true);
        } else {
            self.rep.good("copy", what, 1);
        }
        if src_kept {
            let c = &after.objs[src as usize];
            let same = (0..a.size).all(|x| a.get(x) == c.get(x));
            if !same {
                self.rep.bad("copy", what, "the source object is changed".into(), true);
            }
        }
    }
    fn copies(&mut self, fam: &Fam, abs: &mut Vec<Shape>, fins: &mut Vec<Tm>) -> Res<()> {
        let (na, nf) = (abs.len(), fins.len());
        let k = fam.tm.len();
        for sx in 0..na + nf {
            for i in 0..if sx < na { k } else { 1 } {
                let fin = sx >= na;
                let tm = if fin { fins[sx - na].clone() } else { self.apply(&fam.tm[i], &abs[sx].clone()) };
                let mut st = self.fresh();
                let zero = self.spec.lazy && i == 0 && !fin;
                let (pos, words) = if zero { (Lin::default(), self.iv.clone()) } else { (lin(vec![(self.p, 1)], 0), self.h.clone()) };
                let (src, sfw, sout) = if fin { self.final_inst(&mut st, &tm, "W") } else { (self.inst(&mut st, &tm, &words, &pos, &[], &[]), vec![], vec![]) };
                let sp = self.ptr(src[0], 0);
                let dst = st.new_obj(self.size, OK::Driver, "copy", self.e.uninit);
                let dp = self.ptr(dst, 0);
                let mut ends = vec![];
                let s = self.one(st.clone(), "k_copy", &[dp, sp], "copy construction")?;
                self.copied(&st, src[0], &s, dst, &tm, "copy construction", true);
                ends.push((s, dst, "copy construction"));
                let s = self.one(st.clone(), "k_move", &[dp, sp], "move construction")?;
                self.copied(&st, src[0], &s, dst, &tm, "move construction", false);
                ends.push((s, dst, "move construction"));
                if self.assignable {
                    // into an object in another state, of every reachable heap shape
                    for dx in 0..na + nf {
                        if self.frames.is_empty() && (dx == 0) == (i % 2 == 0) {
                            continue; // no heap: assignment cannot depend on the kind of the old state, alternate
                        }
                        let other = if dx >= na { fins[dx - na].clone() } else { self.apply(&fam.tm[(k / 2).min(k - 1)], &abs[dx].clone()) };
                        let mut st2 = st.clone();
                        let fw: Vec<N> = self.spec.fwidths.clone().iter().map(|w| self.e.c.bsym("v", *w, false)).collect();
                        let hw: Vec<N> = self.spec.widths.clone().iter().map(|w| self.e.c.bsym("g", *w, false)).collect();
                        let out: Vec<N> = (0..self.spec.outlen).map(|_| self.e.c.bsym("o", 8, false)).collect();
                        let d2 = self.inst(&mut st2, &other, &hw, &lin(vec![(self.p, 1)], 0), &fw, &out);
                        let dp = self.ptr(d2[0], 0);
                        let s = self.one(st2.clone(), "k_assign", &[dp, sp], "copy assignment")?;
                        self.copied(&st2, src[0], &s, d2[0], &tm, "copy assignment", true);
                        ends.push((s, d2[0], "copy assignment"));
                        let s = self.one(st2.clone(), "k_massign", &[dp, sp], "move assignment")?;
                        self.copied(&st2, src[0], &s, d2[0], &tm, "move assignment", false);
                        ends.push((s, d2[0], "move assignment"));
                    }
                    let s = self.one(st.clone(), "k_assign", &[sp, sp], "self assignment")?;
                    self.copied(&st, src[0], &s, src[0], &tm, "self assignment", true);
                    ends.push((s, src[0], "self assignment"));
                }
                if !self.frames.is_empty() {
                    for (s, d, what) in ends {
                        // no heap block is shared between the two objects
                        if !what.starts_with("move") && src.iter().any(|x| !s.objs[*x as usize].alive && *x != d) {
                            self.rep.bad("copy", what, "memory of the source is released".into(), true);
                        }
                        if what.starts_with("copy") {
                            let kept = src.iter().all(|x| (0..st.objs[*x as usize].size).all(|y| st.objs[*x as usize].get(y) == s.objs[*x as usize].get(y)));
                            if !kept {
                                self.rep.bad("copy", what, "the source object is changed".into(), true);
                            }
                            let (a, b) = (self.objs_of(&s, src[0]), self.objs_of(&s, d));
                            if a.iter().any(|x| b.contains(x)) {
                                self.rep.bad("copy", what, "copy and source share memory".into(), true);
                            }
                        }
                        if fin {
                            let mut t = self.infer_final(&s, d, &sfw, &sout);
                            for (x, c) in tm.objs[0].iter().enumerate() {
                                if *c == T::Any {
                                    t.objs[0][x] = T::Any;
                                }
                            }
                            if !fins.contains(&t) && fins.len() < 10 {
                                fins.push(t);
                            }
                        } else {
                            let sh = self.shape_of(&s, d);
                            let t = self.apply(&fam.tm[i], &sh);
                            match self.check(&s, d, &t, &pos, &Lin::default(), Some(&words), &[], &[])? {
                                l if l.is_empty() => {
                                    if !abs.contains(&sh) && abs.len() < 10 {
                                        abs.push(sh);
                                    }
                                }
                                _ => self.rep.bad("copy", what, "the copy does not satisfy the invariant of its source".into(), false),
                            }
                        }
                    }
                }
                let s = self.one(st.clone(), "k_dtor", &[sp], "destruction")?;
                let _ = s;
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------------ equality
    fn equality(&mut self, f: &Tm, g: &Tm) -> Res<()> {
        let mut st = self.fresh();
        let (a, fw, oa) = self.final_inst(&mut st, f, "A");
        let (b, fb, ob) = self.final_inst(&mut st, g, "B");
        let c = self.final_with(&mut st, g, &fw);
        let (pa, pb, pc) = (self.ptr(a[0], 0), self.ptr(b[0], 0), self.ptr(c[0], 0));
        let one = self.e.c.c(1, 1);
        for (l, r, name, label) in [(pa, pc, "same-result", "objects with the same result compare equal"), (pa, pa, "reflexive", "reflexive")] {
            let (v, ends) = self.bool_call(&st, "k_eq", l, r, label)?;
            for e in &ends {
                self.unchanged(&st, e, &[a[0], b[0], c[0]], "operator==");
            }
            let (ok, rf) = self.same(v, one);
            if ok {
                self.rep.good("eq", label, 1);
            } else {
                let m = self.e.c.show(v, 4);
                self.rep.bad("eq", name, format!("{}: {}", label, m), rf);
            }
        }
        let (r1, _) = self.bool_call(&st, "k_eq", pa, pb, "equality")?;
        let (r2, _) = self.bool_call(&st, "k_eq", pb, pa, "equality")?;
        let (r3, _) = self.bool_call(&st, "k_ne", pa, pb, "inequality")?;
        let (ok, rf) = self.same(r1, r2);
        if ok {
            self.rep.good("eq", "symmetric", 1);
        } else {
            self.rep.bad("eq", "symmetric", "a == b and b == a may differ".into(), rf);
        }
        let n = self.e.c.not(r1);
        let (ok, rf) = self.same(r3, n);
        if ok {
            self.rep.good("eq", "operator!= is the negation", 1);
        } else {
            self.rep.bad("eq", "negation", "operator!= is not the negation of operator==".into(), rf);
        }
        // equal objects yield equal digests
        let mut all = oa.len() == ob.len();
        let mut rfa = false;
        let (ka, kb) = match self.spec.inj.clone() {
            Some(f) => {
                self.rep.notes.push("lemma: Keccak-f[1600] is a permutation (FIPS 202), so equal states after the last output block imply equal earlier output blocks".into());
                (f(&fw), f(&fb))
            }
            None => (oa.clone(), ob.clone()),
        };
        for (p, q) in ka.iter().zip(&kb) {
            let g = self.e.c.eq(*p, *q);
            let (v, _) = self.e.c.decide_true(g, &[r1]);
            if v != Verdict::Proved {
                all = false;
                rfa |= v == Verdict::Refuted;
            }
        }
        if all {
            self.rep.good("eq", "objects that compare equal have equal digests", 1);
        } else {
            self.rep.bad("eq", "equal-digests", "two objects may compare equal although their digests differ".into(), rfa);
        }
        Ok(())
    }
    /// call a predicate on two objects; the result as one term over all paths
    fn bool_call(&mut self, st: &State, f: &str, l: N, r: N, what: &str) -> Res<(N, Vec<State>)> {
        let outs = self.call(st.clone(), f, &[l, r], what)?;
        if outs.is_empty() {
            return Err(format!("{}: no normal return", f));
        }
        let mut acc = self.e.c.c(1, 0);
        for s in &outs {
            if s.rng.iter().zip(&st.rng).any(|(a, b)| a != b) {
                return Err(format!("{}: splits on a size", f));
            }
            let mut t = s.ret.ok_or("no value")?;
            if self.e.c.w(t) != 1 {
                let z = self.e.c.c(self.e.c.w(t), 0);
                let q = self.e.c.eq(t, z);
                t = self.e.c.not(q);
            }
            for p in &s.path {
                t = self.e.c.and(*p, t);
            }
            acc = self.e.c.or(acc, t);
        }
        Ok((acc, outs))
    }
    // ------------------------------------------------------------------ overloads
    /// Every input overload is checked against the contract of addData(Span<const Byte>): the callee is replaced by a
    /// recorder, and the recorded receiver, pointer and length must be the object, the argument's storage and its
    /// size in bytes, for every element count.
    fn overloads(&mut self, fam: &Fam, sh: &Shape) -> Res<()> {
        let target = self.hook_target();
        let qmax = if self.pw() == 64 { 1i128 << 57 } else { 1i128 << 29 };
        let w = self.pw();
        let spans: [(&str, i128, bool); 9] = [("k_add", 1, true), ("k_add_span", 1, true), ("k_span_u16", 2, true), ("k_span_u32", 4, true), ("k_span_u64", 8, true), ("k_span_mut8", 1, true), ("k_span_i32", 4, true), ("k_span_ch", 1, true), ("k_span_mut64", 8, true)];
        let arrs: [(&str, i128); 11] = [("k_arr_a1", 1), ("k_arr_a5", 5), ("k_arr_a300", 300), ("k_arr_w3", 6), ("k_arr_d7", 28), ("k_arr_q33", 264), ("k_arr_c4", 4), ("k_arr_aL", 70001), ("k_arr_dL", 80004), ("k_arr_aH", 0x100000003), ("k_arr_qH", 0x100000008)];
        let cases: Vec<(&str, i128, bool)> = spans.iter().cloned().chain(arrs.iter().map(|(a, b)| (*a, *b, false))).collect();
        for (fun, sz, span) in cases {
            if !self.e.m.fnames.contains_key(fun) {
                continue;
            }
            let mut ok = false;
            let mut wrong: Option<String> = None;
            if let Some(t) = target {
                let mut st = self.fresh();
                let m = if span { Some(self.newsym(&mut st, "m", 0, qmax / sz)) } else { None };
                let bytes = match m {
                    Some(m) => lin(vec![(m, sz)], 0),
                    None => lin(vec![], sz),
                };
                let o = st.new_obj(self.size, OK::Driver, "object", self.e.uninit);
                let obj = self.ptr(o, 0);
                let bn = self.e.c.lin_node(bytes, w);
                let r = self.region(&mut st, R1, 0, bn);
                let d = self.ptr(r, 0);
                self.e.hooks.insert(t, crate::exec::Hook { tag: 0, act: crate::exec::HookAct::Receiver });
                let refc = self.call(st.clone(), "k_add_span", &[obj, d, bn], "addData(span)");
                let args: Vec<N> = match m {
                    Some(m) => {
                        let mn = self.e.c.lin_node(lin(vec![(m, 1)], 0), w);
                        vec![obj, d, mn]
                    }
                    None => vec![obj, d],
                };
                let got = self.call(st.clone(), fun, &args, &format!("overload {}", fun));
                self.e.hooks.clear();
                let (refc, got) = (refc?, got?);
                ok = refc.len() == 1 && refc[0].calls.len() == 1 && !got.is_empty();
                for g in &got {
                    let zero = m.map_or(false, |m| g.rng[m as usize] == (0, 0)) && g.calls.is_empty();
                    let ret = g.ret.map_or(false, |x| self.e.c.norm_ptr(x) == obj);
                    let (a, b) = (&st.objs[o as usize], &g.objs[o as usize]);
                    let kept = (0..a.size).all(|x| a.get(x) == b.get(x));
                    ok &= ret && kept;
                    if zero || refc.len() != 1 || refc[0].calls.len() != 1 || g.calls == refc[0].calls {
                        continue;
                    }
                    match self.covers(&refc[0].calls[0], &g.calls, d, bn) {
                        Some(true) => {}
                        Some(false) if kept => {
                            ok = false;
                            wrong = Some(format!("{} does not pass on exactly the bytes of its argument ({} bytes per element)", fun, sz));
                        }
                        _ => ok = false,
                    }
                }
            }
            if let Some(w) = wrong {
                self.rep.bad("overload", fun, w, true);
                continue;
            }
            if ok {
                self.rep.good("overload", &format!("{} passes exactly the bytes of its argument", fun), 1);
                continue;
            }
            // not a plain forwarder: compare complete effects, for a range of sizes only
            if !span && sz > 1000 {
                self.rep.notes.push(format!("bounded: {} is not a plain forwarder and too large to be compared", fun));
                continue;
            }
            let counts: Vec<i128> = if span { vec![0, 1, 2, 3, 7, 16, 17, 40] } else { vec![1] };
            let tms: Vec<usize> = vec![0, fam.tm.len() / 2, fam.tm.len() - 1];
            let mut cmp = 0;
            for n in tms {
                for k in &counts {
                    let len = (sz * k) as u64;
                    self.start_chain(false)?;
                    let mut st = self.fresh();
                    let zero = self.spec.lazy && n == 0;
                    let (pos, words) = if zero { (Lin::default(), self.iv.clone()) } else { (lin(vec![(self.p, 1)], 0), self.h.clone()) };
                    let tm = self.apply(&fam.tm[n], sh);
                    let ids = self.inst(&mut st, &tm, &words, &pos, &[], &[]);
                    let obj = self.ptr(ids[0], 0);
                    let szn = self.cn(len + n as u64);
                    let r = self.region(&mut st, R1, n as u64, szn);
                    let d = self.ptr(r, n as u64);
                    let ln = self.cn(len);
                    let kn = self.cn(*k as u64);
                    let a = self.one(st.clone(), "k_add", &[obj, d, ln], "addData")?;
                    let args = if span { vec![obj, d, kn] } else { vec![obj, d] };
                    let b = self.one(st, fun, &args, fun)?;
                    let mut memo: FxMap<N, N> = FxMap::default();
                    let mut bad = None;
                    for i in &ids {
                        let (x, y) = (a.objs[*i as usize].clone(), b.objs[*i as usize].clone());
                        for j in 0..x.size {
                            let (p, q) = (x.get(j), y.get(j));
                            if p != q && p.n != self.e.uninit && !matches!(fam.tm[n].objs[0].get(j as usize), Some(T::Any)) && !self.same_cell(&a, p, q, &mut memo) {
                                bad = Some(j);
                            }
                        }
                    }
                    if let Some(j) = bad {
                        self.rep.bad("overload", fun, format!("{} elements: object byte {} differs from the one left by addData(pointer, {})", k, j, len), true);
                    }
                    cmp += 1;
                }
            }
            self.rep.notes.push(format!("bounded: {} is not a plain forwarder; compared on {} (state, size) pairs", fun, cmp));
            self.rep.good("overload-bounded", &format!("{} has the effect of addData(pointer, length)", fun), cmp);
        }
        Ok(())
    }
    /// do the recorded calls hand over the n bytes at d, in order and without gaps? None: not decidable from the record
    fn covers(&mut self, refc: &[N], calls: &[Vec<N>], d: N, n: N) -> Option<bool> {
        if calls.is_empty() {
            return None;
        }
        let ip = refc.iter().position(|x| self.e.c.norm_ptr(*x) == d)?;
        let il = refc.iter().position(|x| *x == n)?;
        let mut at = d;
        let mut total = self.cn(0);
        let mut undecided = false;
        for c in calls {
            if c.len() != refc.len() {
                return None;
            }
            for (i, x) in c.iter().enumerate() {
                if i != ip && i != il && *x != refc[i] {
                    return None;
                }
            }
            if self.e.c.norm_ptr(c[ip]) != at {
                return if calls.len() == 1 { Some(false) } else { None };
            }
            if calls.len() > 1 && (self.e.c.cval(c[il]).is_none() || self.e.c.cval(n).is_none()) {
                undecided = true;
            }
            total = self.e.c.add(total, c[il]);
            let off = self.e.c.nd(at).a[0];
            let o = self.e.c.nd(at).imm as u32;
            let off = self.e.c.add(off, c[il]);
            at = self.e.c.ptr(o, off);
        }
        if total == n {
            return Some(true);
        }
        if undecided {
            return None;
        }
        let (eq, _) = self.same(total, n);
        Some(eq)
    }
    fn hook_target(&self) -> Option<usize> {
        let f = *self.e.m.fnames.get("k_add_span")?;
        for b in &self.e.m.funcs[f].blocks {
            for i in &b.insts {
                if let crate::ir::I::Call { callee: crate::ir::Callee::Func(g), .. } = &i.i {
                    if self.e.m.funcs[*g].name.contains("7addDataE") {
                        return Some(*g);
                    }
                }
            }
        }
        None
    }
}
