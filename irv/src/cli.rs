//! Contracts of the functions around the library in the command line program: streams, C output, number parsing, exit,
//! and the library's classes themselves (their own contracts are discharged elsewhere).  Every call of one of them is
//! replaced by its contract; what happened is recorded in the ghost state of the path.
use super::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    // streams
    Open,
    OpenLate,
    Good,
    Fail,
    Eof,
    Bool,
    Not,
    Read,
    Count,
    StreamDtor,
    StreamDelete,
    Close,
    IsOpen,
    // C library
    Printf,
    Fprintf,
    Puts,
    Fputs,
    Putchar,
    Exit,
    Strtol,
    Errno,
    BeginCatch,
    EndCatch,
    Throw,
    // hash objects
    New,
    Copy,
    Move,
    Dtor,
    Add,
    Fin,
    Str,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Stream {
    pub file: Option<Vec<N>>, // None: standard input
    pub good: bool,
    pub eof: bool,
    pub pos: u64,
    pub count: N,
    pub decided: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Int(N),
    Str(Vec<N>),
    Mem(Vec<N>),
    Other,
}
/// a piece of the input: bytes from..from+len of the stream
#[derive(Clone, Debug, PartialEq)]
pub struct Piece {
    pub from: u64,
    pub len: N,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    New(N, usize, Vec<Arg>),
    Copy(N, N),
    Move(N, N),
    Dtor(N),
    Add(N, Option<Vec<Piece>>), // None: other bytes than the input's
    Next(N, Option<Vec<Piece>>),
    Fin(N),
    Str(N),
    Open(Option<Vec<N>>, bool),
    Read(u64, N, bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Conv {
    None,
    Range,
    Val(u32, bool), // value symbol, whole string consumed
}
#[derive(Clone, Default)]
pub struct Ghost {
    pub streams: BTreeMap<u32, Stream>,
    pub ev: Vec<Ev>,
    pub out: Vec<N>,
    pub exit: Option<N>,
    pub exc: Option<String>,
    pub conv: BTreeMap<usize, Conv>,
    pub snap: Option<Rc<State>>,
    /// hash objects: address to (its token in memory, instance); token to the instance that was made with it
    pub inst: BTreeMap<N, (N, N)>,
    pub toks: BTreeMap<N, N>,
    pub nfin: u32,
}
pub struct Cli {
    pub argv: Vec<Vec<N>>,     // contents of the arguments
    pub convs: Vec<(u32, String)>,
    pub vsym: HashMap<usize, u32>,
    pub gsym: u32,             // size of the short read
    pub words: HashMap<N, u64>, // input word -> its position
    pub wordat: HashMap<u64, N>,
    pub text: Vec<N>,          // what toString() returns
    pub errno: u32,
    pub exited: Vec<State>,
    pub concrete: Option<Vec<u64>>, // sizes of the last read to try; None: symbolic
    pub types: Vec<String>,
    pub sizes: Vec<u64>,
    pub tokens: HashMap<(N, u64), N>,
    pub delete: usize,
    pub bounded: bool,
    pub inductive: u64,
    pub excobj: u32,
    pub stderr: u32,
}

impl<'m> Exec<'m> {
    pub fn nonzero(&mut self, x: N) -> bool {
        match &self.cli {
            Some(c) if c.text.contains(&x) => return true,
            None => return false,
            _ => {}
        }
        self.c.urange(x, 4).0 > 0
    }
    /// equality of two byte ranges, split until it is known
    pub fn cli_memcmp(&mut self, st: &mut State, a: &[N]) -> Res<Option<Vec<State>>> {
        let w = self.pw();
        let n = self.c.norm(a[2]);
        let n = self.c.cval(n).ok_or("memcmp with symbolic length")?;
        for i in 0..n {
            let k = self.c.c(w, i);
            let (pa, pb) = (self.gep_raw(a[0], k), self.gep_raw(a[1], k));
            let (x, y) = match (self.load(st, pa, 1, false)?, self.load(st, pb, 1, false)?) {
                (Ok(x), Ok(y)) => (x, y),
                _ => return Ok(None),
            };
            let (x, y) = (self.c.norm(x), self.c.norm(y));
            for e in [self.c.eq(x, y), self.c.ult(x, y)] {
                if self.c.cval(e).is_none() {
                    return match self.fork_cond(st, e)? {
                        Some(v) => Ok(Some(v)),
                        None => Err("comparison of unknown bytes".into()),
                    };
                }
                if self.c.cval(e) == Some(1) {
                    break;
                }
            }
            let e = self.c.eq(x, y);
            if self.c.cval(e) == Some(0) {
                return Ok(None);
            }
        }
        Ok(None)
    }
    pub fn typeid(&self, p: N) -> Res<usize> {
        let nd = self.c.nd(p);
        if nd.o != O::Ptr {
            return Err("typeid".into());
        }
        self.gobj.iter().position(|g| *g == nd.imm as u32).map(|i| i + 1).ok_or("typeid".to_string())
    }
    pub fn landing(&mut self, _st: &mut State, x: &str, catches: &[Option<String>], cleanup: bool) -> Res<N> {
        // std::invalid_argument and std::out_of_range are logic_errors
        let is = |c: &str| c == x || c == "_ZTISt9exception" || (c == "_ZTISt11logic_error" && x != "_ZTISt13runtime_error" && x != "_ZTISt9bad_alloc");
        let mut sel = 0;
        let mut hit = cleanup;
        for c in catches {
            match c {
                None => {
                    hit = true;
                    sel = 0x7fff_ffff;
                    break;
                }
                Some(g) if is(g) => {
                    hit = true;
                    let i = self.m.globals.iter().position(|y| &y.name == g).ok_or("typeinfo")?;
                    sel = i + 1;
                    break;
                }
                _ => {}
            }
        }
        if !hit {
            return Err("landing pad".into());
        }
        let o = self.cli.as_ref().unwrap().excobj;
        let w = self.pw();
        let z = self.c.c(w, 0);
        let p = self.c.ptr(o, z);
        let s = self.c.c(32, sel as u128);
        Ok(self.c.agg(vec![p, s]))
    }
    /// leave frames until one handles the exception in flight; `pop`: the current frame is done with it
    pub fn unwind(&mut self, st: &mut State, mut pop: bool) -> Res<Step> {
        let mut first = !pop;
        loop {
            if pop {
                let fr = match st.frames.pop() {
                    Some(f) => f,
                    None => break,
                };
                for o in &fr.allocas {
                    let ob = Rc::make_mut(&mut st.objs[*o as usize]);
                    ob.alive = false;
                    ob.cells.clear();
                }
            }
            let fr = match st.frames.last() {
                Some(f) => f,
                None => break,
            };
            let ip = if first { fr.ip } else { fr.ip.wrapping_sub(1) };
            first = false;
            pop = true;
            let b = &self.m.funcs[fr.f].blocks[fr.blk];
            if let Some(I::Call { unwind: Some(u), .. }) = b.insts.get(ip).map(|x| &x.i) {
                let u = *u;
                // does the landing pad take it?
                let x = st.gh.as_ref().and_then(|g| g.exc.clone()).ok_or("unwind")?;
                let lb = &self.m.funcs[fr.f].blocks[u];
                let lp = lb.insts.iter().find_map(|i| if let I::LandingPad { cleanup, catches, .. } = &i.i { Some((*cleanup, catches.clone())) } else { None });
                let (cl, ca) = lp.ok_or("landing pad missing")?;
                if self.landing(st, &x, &ca, cl).is_err() {
                    continue;
                }
                let fr = st.fr();
                fr.prev = fr.blk;
                fr.blk = u;
                fr.ip = 0;
                self.do_phis(st)?;
                return Ok(Step::Go);
            }
        }
        Err("an exception leaves the program".into())
    }
    fn cstr(&mut self, st: &mut State, p: N) -> Res<Vec<N>> {
        let w = self.pw();
        let mut v = vec![];
        loop {
            let k = self.c.c(w, v.len() as u128);
            let q = self.gep_raw(p, k);
            let x = match self.load(st, q, 1, false)? {
                Ok(x) => self.c.norm(x),
                Err(_) => return Err("string pointer".into()),
            };
            if self.c.cval(x) == Some(0) {
                return Ok(v);
            }
            if self.c.cval(x).is_none() && !self.nonzero(x) {
                return Err("string of unknown bytes".into());
            }
            v.push(x);
            if v.len() > 100_000 {
                return Err("string".into());
            }
        }
    }
    fn cxxstr(&mut self, st: &mut State, s: N) -> Res<Vec<N>> {
        let pb = (self.pw() / 8) as u64;
        let nd = self.c.nd(s).clone();
        if nd.o != O::Ptr {
            return Err("string object".into());
        }
        let off = self.c.cval(nd.a[0]).ok_or("string offset")? as u64;
        let p = self.get(st, nd.imm as u32, off, pb)?;
        let p = self.c.norm_ptr(p);
        let l = self.get(st, nd.imm as u32, off + pb, pb)?;
        let l = self.c.cval(l).ok_or("string length")? as u64;
        let mut v = vec![];
        let w = self.pw();
        for i in 0..l {
            let k = self.c.c(w, i as u128);
            let q = self.gep_raw(p, k);
            match self.load(st, q, 1, false)? {
                Ok(x) => v.push(self.c.norm(x)),
                Err(_) => return Err("string data".into()),
            }
        }
        Ok(v)
    }
    fn format(&mut self, st: &mut State, a: &[N]) -> Res<Vec<N>> {
        let f = self.cstr(st, a[0])?;
        let mut out = vec![];
        let mut arg = 1;
        let mut i = 0;
        while i < f.len() {
            let ch = self.c.cval(f[i]).ok_or("format string")? as u8;
            if ch != b'%' {
                out.push(f[i]);
                i += 1;
                continue;
            }
            let nx = f.get(i + 1).and_then(|x| self.c.cval(*x)).ok_or("format string")? as u8;
            match nx {
                b'%' => out.push(f[i]),
                b's' => {
                    let p = *a.get(arg).ok_or("missing printf argument")?;
                    let s = self.cstr(st, p)?;
                    out.extend(s);
                    arg += 1;
                }
                b'c' => {
                    let v = *a.get(arg).ok_or("missing printf argument")?;
                    let b = self.c.trunc(v, 8);
                    let b = self.c.norm(b);
                    out.push(b);
                    arg += 1;
                }
                _ => return Err("printf conversion".into()),
            }
            i += 2;
        }
        Ok(out)
    }
    /// which part of the input do these bytes hold?
    fn pieces(&mut self, st: &mut State, p: N, len: N) -> Res<Option<Vec<Piece>>> {
        let len = self.c.norm(len);
        let w = self.pw();
        if self.c.cval(len) == Some(0) {
            return Ok(Some(vec![]));
        }
        let nd = self.c.nd(p).clone();
        if nd.o != O::Ptr {
            self.fail(st, "null-or-wild-pointer", "input range".into(), true);
            return Ok(None);
        }
        let off = self.c.cval(nd.a[0]).ok_or("input pointer")? as u64;
        let (lo, hi) = self.c.urange(len, 6);
        let sym = self.c.cval(len).is_none();
        let ob = st.objs[nd.imm as usize].clone();
        if !ob.alive || off as u128 + hi > ob.size as u128 {
            self.fail(st, "out-of-bounds", "the range passed on exceeds its object".into(), false);
            return Ok(None);
        }
        let _ = lo;
        let words = std::mem::take(&mut self.cli.as_mut().unwrap().words);
        let mut v: Vec<(u64, u64)> = vec![];
        let mut good = true;
        for i in 0..hi as u64 {
            let c = ob.get(off + i);
            match words.get(&c.n) {
                Some(pos) => {
                    let x = pos + c.k as u64;
                    match v.last_mut() {
                        Some(l) if l.0 + l.1 == x => l.1 += 1,
                        _ => v.push((x, 1)),
                    }
                }
                None => {
                    good = false;
                    break;
                }
            }
        }
        self.cli.as_mut().unwrap().words = words;
        if !good || (sym && v.len() != 1) {
            return Ok(None);
        }
        if sym {
            return Ok(Some(vec![Piece { from: v[0].0, len }]));
        }
        Ok(Some(v.into_iter().map(|(f, l)| Piece { from: f, len: self.c.c(w, l as u128) }).collect()))
    }
    fn same_state(&self, a: &State, b: &State, o: u32, from: u64, n: u64) -> bool {
        if a.frames.len() != b.frames.len() || a.objs.len() != b.objs.len() {
            return false;
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if x.f != y.f || x.blk != y.blk || x.ip != y.ip || x.regs != y.regs || x.allocas != y.allocas {
                return false;
            }
        }
        for (i, (x, y)) in a.objs.iter().zip(&b.objs).enumerate() {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            if x.alive != y.alive || x.size != y.size || x.cells.len() != y.cells.len() {
                return false;
            }
            for (j, (p, q)) in x.cells.iter().zip(&y.cells).enumerate() {
                if Rc::ptr_eq(p, q) {
                    continue;
                }
                for k in 0..CH {
                    let at = (j * CH + k) as u64;
                    if p[k] != q[k] && !(i as u32 == o && at >= from && at < from + n) {
                        return false;
                    }
                }
            }
        }
        let (x, y) = (a.gh.as_ref().unwrap(), b.gh.as_ref().unwrap());
        let strip = |g: &Ghost| -> Vec<(u32, Option<Vec<N>>, bool, bool, N)> { g.streams.iter().map(|(k, s)| (*k, s.file.clone(), s.good, s.eof, s.count)).collect() };
        strip(x) == strip(y) && x.out == y.out && x.conv == y.conv
    }
    fn opened(&mut self, st: &State, file: Option<Vec<N>>, o: u32, good: bool) -> State {
        let mut s = st.clone();
        let w = self.pw();
        let z = self.c.c(w, 0);
        let g = Rc::make_mut(s.gh.as_mut().unwrap());
        g.ev.push(Ev::Open(file.clone(), good));
        g.streams.insert(o, Stream { file, good, eof: false, pos: 0, count: z, decided: true });
        s
    }
    /// vtable of a stream: virtual base offset and the deleting destructor
    pub fn stream_vptr(&mut self, st: &mut State, o: u32, off: u64) {
        let pb = (self.pw() / 8) as u64;
        let w = self.pw();
        let un = self.uninit;
        let t = st.new_obj(8 * pb, OK::Const, "vtable", un);
        let v = self.c.c(w, pb as u128);
        self.put(st, t, 0, v, pb);
        let f = self.cli.as_ref().unwrap().delete;
        let f = self.c.mk(O::Fn, w, [0; 3], f as u128);
        self.put(st, t, 3 * pb, f, pb);
        self.put(st, t, 4 * pb, f, pb);
        let k = self.c.c(w, 3 * pb as u128);
        let p = self.c.ptr(t, k);
        self.put(st, o, off, p, pb);
    }
    fn stream_of(&self, p: N) -> Res<u32> {
        let nd = self.c.nd(p);
        if nd.o == O::Ptr {
            Ok(nd.imm as u32)
        } else {
            Err("stream pointer".into())
        }
    }
    /// a range of bytes: pointer and length in either order, or a span object in memory
    fn range_arg(&mut self, st: &mut State, a: &[N]) -> Res<(N, N)> {
        let pb = (self.pw() / 8) as u64;
        let v: Vec<N> = match a {
            [x, y] => vec![*x, *y],
            [x] => {
                let nd = self.c.nd(*x).clone();
                if nd.o != O::Ptr || st.objs[nd.imm as usize].size < 2 * pb {
                    return Err("form of a range".into());
                }
                let off = self.c.cval(nd.a[0]).ok_or("range")? as u64;
                vec![self.get(st, nd.imm as u32, off, pb)?, self.get(st, nd.imm as u32, off + pb, pb)?]
            }
            _ => return Err("form of a range".into()),
        };
        let v: Vec<N> = v.into_iter().map(|x| self.c.norm_ptr(x)).collect();
        match (self.c.op(v[0]) == O::Ptr, self.c.op(v[1]) == O::Ptr) {
            (true, false) => Ok((v[0], v[1])),
            (false, true) => Ok((v[1], v[0])),
            _ => Err("form of a range".into()),
        }
    }
    /// a new hash object at this address: its representation is opaque, its bytes carry a token
    fn hnew(&mut self, st: &mut State, p: N, ty: usize) -> Res<N> {
        let n = *self.cli.as_ref().unwrap().sizes.get(ty).ok_or("a hash class of unknown size")?;
        let id = st.gh.as_ref().unwrap().inst.len() as N + st.gh.as_ref().unwrap().toks.len() as N;
        let nd = self.c.nd(p).clone();
        if nd.o != O::Ptr {
            return Err("hash object pointer".into());
        }
        let off = self.c.cval(nd.a[0]).ok_or("hash object pointer")? as u64;
        let mut first = 0;
        for j in 0..n.div_ceil(4) {
            let k = (id, j);
            let v = match self.cli.as_ref().unwrap().tokens.get(&k) {
                Some(v) => *v,
                None => {
                    let v = self.c.bsym(&format!("object{}.{}", id, j), 32, false);
                    self.cli.as_mut().unwrap().tokens.insert(k, v);
                    v
                }
            };
            if j == 0 {
                first = v;
            }
            if n - 4 * j >= 4 {
                self.put(st, nd.imm as u32, off + 4 * j, v, 4);
            }
        }
        let g = Rc::make_mut(st.gh.as_mut().unwrap());
        g.inst.insert(p, (first, id));
        g.toks.insert(first, id);
        Ok(id)
    }
    /// which hash object is at this address?  Objects may have been copied bytewise, as long as that happened before the
    /// original was used.
    fn hobj(&mut self, st: &mut State, p: N) -> Res<N> {
        let nd = self.c.nd(p).clone();
        if nd.o != O::Ptr || !st.objs[nd.imm as usize].alive {
            return Err("hash object pointer".into());
        }
        let off = self.c.cval(nd.a[0]).ok_or("hash object pointer")? as u64;
        let t = self.get(st, nd.imm as u32, off, 4)?;
        let t = self.c.norm(t);
        let g = Rc::make_mut(st.gh.as_mut().unwrap());
        match g.inst.get(&p) {
            Some((x, i)) if *x == t => return Ok(*i),
            _ => {}
        }
        let src = *g.toks.get(&t).ok_or("use of something that is not a hash object")?;
        let used = g.ev.iter().any(|e| match e {
            Ev::Copy(d, s) | Ev::Move(d, s) => *d == src || *s == src,
            Ev::Add(o, _) | Ev::Next(o, _) | Ev::Fin(o) | Ev::Dtor(o) => *o == src,
            _ => false,
        });
        if used {
            return Err("bytewise copy of a hash object in use".into());
        }
        let id = g.inst.len() as N + g.toks.len() as N;
        g.inst.insert(p, (t, id));
        g.ev.push(Ev::Copy(id, src));
        Ok(id)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn cli_call(&mut self, st: &mut State, k: Kind, arg: usize, _fid: usize, av: &[N], dst: Option<u32>, normal: Option<usize>, stop: Option<(usize, usize)>) -> Res<Step> {
        let w = self.pw();
        let mut outs: Vec<(State, Option<N>)> = vec![];
        let mut val: Option<N> = None;
        let b1 = |e: &mut Exec, b: bool| e.c.c(1, b as u128);
        macro_rules! g {
            ($s:expr) => {
                Rc::make_mut($s.gh.as_mut().unwrap())
            };
        }
        match k {
            Kind::Open | Kind::OpenLate => {
                let o = self.stream_of(av[0])?;
                let name = if arg == 1 { self.cstr(st, av[1])? } else { self.cxxstr(st, av[1])? };
                let name: Vec<N> = if arg == 1 { name } else { name };
                if k == Kind::Open {
                    let off = self.c.cval(self.c.nd(av[0]).a[0]).ok_or("stream")? as u64;
                    self.stream_vptr(st, o, off);
                }
                for good in [true, false] {
                    let s = self.opened(st, Some(name.clone()), o, good);
                    outs.push((s, None));
                }
            }
            Kind::Good | Kind::Fail | Kind::Eof | Kind::Bool | Kind::Not | Kind::IsOpen => {
                let o = self.stream_of(av[0])?;
                let s = g!(st).streams.get(&o).cloned().ok_or("a stream that was not opened is used")?;
                let pick = |s: &Stream| match k {
                    Kind::Good => s.good,
                    Kind::Bool => s.good,
                    Kind::Fail | Kind::Not => !s.good,
                    Kind::Eof => s.eof,
                    _ => s.good || s.eof || s.pos > 0,
                };
                if s.decided {
                    val = Some(b1(self, pick(&s)));
                } else {
                    // standard input: usable or not
                    for good in [true, false] {
                        let s2 = self.opened(st, None, o, good);
                        let x = s2.gh.as_ref().unwrap().streams[&o].clone();
                        let v = b1(self, pick(&x));
                        outs.push((s2, Some(v)));
                    }
                }
            }
            Kind::Count => {
                let o = self.stream_of(av[0])?;
                val = Some(g!(st).streams.get(&o).ok_or("a stream that was not opened is used")?.count);
            }
            Kind::Read => {
                let o = self.stream_of(av[0])?;
                let s = g!(st).streams.get(&o).cloned().ok_or("a stream that was not opened is used")?;
                let mut s = s;
                if !s.decided {
                    *st = self.opened(st, None, o, true);
                    s = g!(st).streams[&o].clone();
                }
                let ret = Some(av[0]);
                let nd = self.c.nd(av[1]).clone();
                let n = self.c.norm(av[2]);
                let n = self.c.cval(n).ok_or("read of unknown size")? as u64;
                if n == 0 || n > 1 << 28 {
                    return Err(format!("read of {} bytes", n));
                }
                if !s.good {
                    let z = self.c.c(w, 0);
                    let x = g!(st).streams.get_mut(&o).unwrap();
                    x.count = z;
                    val = ret;
                } else {
                    let off = self.c.cval(nd.a[0]).ok_or("read buffer")? as u64;
                    let bo = nd.imm as u32;
                    if nd.o != O::Ptr || !st.objs[bo as usize].alive || off + n > st.objs[bo as usize].size {
                        self.fail(st, "out-of-bounds", "the stream is asked to fill more than the buffer".into(), true);
                        return Ok(Step::Dead);
                    }
                    self.ok("memory-write-in-bounds", st, 7);
                    // a whole buffer is read: has this point been reached before in the same state?
                    let mut full = true;
                    if let Some(sn) = g!(st).snap.clone() {
                        if self.same_state(&sn, st, bo, off, n) {
                            full = false;
                            self.cli.as_mut().unwrap().inductive += 1;
                        }
                    }
                    if full && g!(st).nfin >= 3 {
                        if self.cli.as_ref().unwrap().concrete.is_none() {
                            return Err("the reading loop does not come back to the same state".into());
                        }
                        self.cli.as_mut().unwrap().bounded = true;
                        full = false;
                    }
                    let mut snap = st.clone();
                    {
                        let gg = Rc::make_mut(snap.gh.as_mut().unwrap());
                        gg.snap = None;
                    }
                    // contents of the buffer
                    let mut filled = st.clone();
                    let wd = 16u64;
                    let chunkpos = s.pos;
                    for j in 0..n.div_ceil(wd) {
                        let at = chunkpos + j * wd;
                        let old = self.cli.as_ref().unwrap().wordat.get(&at).copied();
                        let node = match old {
                            Some(x) => x,
                            None => {
                                let x = self.c.bsym(&format!("in{}", at), 128, false);
                                let cli = self.cli.as_mut().unwrap();
                                cli.words.insert(x, at);
                                cli.wordat.insert(at, x);
                                x
                            }
                        };
                        let ob = filled.obj_mut(bo);
                        for i in 0..wd.min(n - j * wd) {
                            ob.set(off + j * wd + i, Cell { n: node, k: i as u16 });
                        }
                    }
                    if full {
                        let mut s2 = filled.clone();
                        let c = self.c.c(w, n as u128);
                        let gg = g!(s2);
                        let x = gg.streams.get_mut(&o).unwrap();
                        x.pos += n;
                        x.count = c;
                        gg.ev.push(Ev::Read(s.pos, c, true));
                        gg.nfin += 1;
                        gg.snap = Some(Rc::new(snap));
                        outs.push((s2, ret));
                    }
                    let sizes: Vec<Option<u64>> = match &self.cli.as_ref().unwrap().concrete {
                        None => vec![None],
                        Some(l) => l.iter().filter(|x| **x < n).map(|x| Some(*x)).collect(),
                    };
                    for sz in sizes {
                        let mut s2 = filled.clone();
                        let c = match sz {
                            Some(v) => self.c.c(w, v as u128),
                            None => {
                                let g = self.cli.as_ref().unwrap().gsym;
                                s2.rng[g as usize] = (0, n as i128 - 1);
                                self.c.set_rng(&s2.rng);
                                self.c.lin_node(Lin { t: vec![(g, 1)], c: 0 }, w)
                            }
                        };
                        let gg = g!(s2);
                        let x = gg.streams.get_mut(&o).unwrap();
                        x.count = c;
                        x.good = false;
                        x.eof = true;
                        gg.ev.push(Ev::Read(s.pos, c, false));
                        outs.push((s2, ret));
                    }
                }
            }
            Kind::StreamDtor | Kind::Close => {
                let o = self.stream_of(av[0])?;
                g!(st).streams.remove(&o);
                if k == Kind::Close {
                    return Err("stream closed explicitly".into());
                }
            }
            Kind::StreamDelete => {
                let o = self.stream_of(av[0])?;
                if st.objs[o as usize].kind != OK::Heap || g!(st).streams.remove(&o).is_none() {
                    self.fail(st, "bad-free", "a stream is deleted that was not created".into(), true);
                    return Ok(Step::Dead);
                }
                self.ok("valid-free", st, 6);
                let ob = st.obj_mut(o);
                ob.alive = false;
                ob.cells.clear();
            }
            Kind::Printf => {
                let t = self.format(st, av)?;
                g!(st).out.extend(t);
                val = Some(self.c.c(32, 1));
            }
            Kind::Fprintf | Kind::Fputs => {
                let (f, t) = if k == Kind::Fprintf {
                    (av[0], self.format(st, &av[1..])?)
                } else {
                    (av[1], self.cstr(st, av[0])?)
                };
                let f = self.stream_of(f)?;
                if f != self.cli.as_ref().unwrap().stderr {
                    g!(st).out.extend(t);
                }
                val = Some(self.c.c(32, 1));
            }
            Kind::Puts => {
                let mut t = self.cstr(st, av[0])?;
                let nl = self.c.c(8, 10);
                t.push(nl);
                g!(st).out.extend(t);
                val = Some(self.c.c(32, 1));
            }
            Kind::Putchar => {
                let b = self.c.trunc(av[0], 8);
                let b = self.c.norm(b);
                g!(st).out.push(b);
                val = Some(av[0]);
            }
            Kind::Exit => {
                g!(st).exit = Some(av[0]);
                let s = st.clone();
                self.cli.as_mut().unwrap().exited.push(s);
                return Ok(Step::Dead);
            }
            Kind::Strtol => {
                let base = self.c.cval(av[2]);
                if base != Some(10) {
                    return Err("number base".into());
                }
                let s = self.cstr(st, av[0])?;
                let i = match self.cli.as_ref().unwrap().argv.iter().position(|a| *a == s) {
                    Some(i) => i,
                    None => return Err("conversion of another string than an argument".into()),
                };
                let v = self.cli.as_ref().unwrap().vsym[&i];
                let mut l = vec![];
                match g!(st).conv.get(&i) {
                    Some(c) => l.push(c.clone()),
                    None => {
                        l.extend([Conv::None, Conv::Range, Conv::Val(v, true)]);
                        if s.len() > 1 {
                            l.push(Conv::Val(v, false));
                        }
                    }
                }
                let rw = 64;
                let er = self.cli.as_ref().unwrap().errno;
                let pb = (w / 8) as u64;
                for c in l {
                    let mut s2 = st.clone();
                    self.sync_in(&mut s2);
                    let (used, r) = match &c {
                        Conv::None => (0, self.c.c(rw, 0)),
                        Conv::Range => {
                            let e = self.c.c(32, 34);
                            self.put(&mut s2, er, 0, e, 4);
                            (s.len(), self.c.c(rw, i64::MAX as u128))
                        }
                        Conv::Val(x, all) => (if *all { s.len() } else { 1 }, self.c.lin_node(Lin { t: vec![(*x, 1)], c: 0 }, rw)),
                    };
                    if self.c.cval(av[1]) != Some(0) {
                        let u = self.c.c(w, used as u128);
                        let p = self.gep_raw(av[0], u);
                        let e = self.c.nd(av[1]).clone();
                        if e.o != O::Ptr {
                            return Err("end pointer".into());
                        }
                        let eo = self.c.cval(e.a[0]).ok_or("end pointer")? as u64;
                        self.put(&mut s2, e.imm as u32, eo, p, pb);
                    }
                    g!(s2).conv.insert(i, c);
                    outs.push((s2, Some(r)));
                }
            }
            Kind::Errno => {
                let z = self.c.c(w, 0);
                let er = self.cli.as_ref().unwrap().errno;
                val = Some(self.c.ptr(er, z));
            }
            Kind::BeginCatch => val = Some(av[0]),
            Kind::EndCatch => g!(st).exc = None,
            Kind::Throw => {
                let t = self.cli.as_ref().unwrap().convs[arg].1.clone();
                g!(st).exc = Some(t);
                return self.unwind(st, false);
            }
            Kind::New => {
                let mut l = vec![];
                if self.cli.as_ref().unwrap().types[arg].contains("SipHash") {
                    let (p, n) = self.range_arg(st, &av[1..])?;
                    let n = self.c.cval(n).ok_or("key length")?;
                    let mut m = vec![];
                    for j in 0..n {
                        let k = self.c.c(w, j);
                        let q = self.gep_raw(p, k);
                        match self.load(st, q, 1, false)? {
                            Ok(x) => m.push(x),
                            Err(_) => return Err("key".into()),
                        }
                    }
                    l.push(Arg::Mem(m));
                } else {
                    for a in &av[1..] {
                        if self.c.nd(*a).o != O::Ptr {
                            let v = self.c.norm(*a);
                            l.push(Arg::Int(v));
                        } else {
                            let s = self.cxxstr(st, *a)?;
                            l.push(Arg::Str(s));
                        }
                    }
                }
                let id = self.hnew(st, av[0], arg)?;
                g!(st).ev.push(Ev::New(id, arg, l));
            }
            Kind::Copy | Kind::Move => {
                let a = self.hobj(st, av[1])?;
                let b = self.hnew(st, av[0], arg)?;
                g!(st).ev.push(if k == Kind::Copy { Ev::Copy(b, a) } else { Ev::Move(b, a) });
                val = Some(av[0]);
            }
            Kind::Dtor => {
                let a = self.hobj(st, av[0])?;
                g!(st).ev.push(Ev::Dtor(a));
            }
            Kind::Add => {
                let (p, n) = self.range_arg(st, &av[1..])?;
                let p = self.pieces(st, p, n)?;
                let a = self.hobj(st, av[0])?;
                g!(st).ev.push(if arg == 1 { Ev::Next(a, p) } else { Ev::Add(a, p) });
                val = Some(av[0]);
            }
            Kind::Fin => {
                let a = self.hobj(st, av[0])?;
                g!(st).ev.push(Ev::Fin(a));
                val = Some(av[0]);
            }
            Kind::Str => {
                // std::string through sret
                let a = self.hobj(st, av[1])?;
                g!(st).ev.push(Ev::Str(a));
                let data = self.cli.as_ref().unwrap().text.clone();
                let pb = (w / 8) as u64;
                let nd = self.c.nd(av[0]).clone();
                let off = self.c.cval(nd.a[0]).ok_or("sret")? as u64;
                let n = data.len() as u64;
                let o = st.new_obj(n + 1, OK::Heap, "heap", self.uninit);
                for (i, b) in data.iter().enumerate() {
                    st.obj_mut(o).set(i as u64, Cell { n: *b, k: 0 });
                }
                let zb = self.c.c(8, 0);
                st.obj_mut(o).set(n, Cell { n: zb, k: 0 });
                let z = self.c.c(w, 0);
                let p = self.c.ptr(o, z);
                self.put(st, nd.imm as u32, off, p, pb);
                let l = self.c.c(w, n as u128);
                self.put(st, nd.imm as u32, off + pb, l, pb);
                self.put(st, nd.imm as u32, off + 2 * pb, l, pb);
            }
        }
        let adv = |e: &mut Exec<'m>, s: &mut State, v: Option<N>| -> Res<()> {
            if let (Some(d), Some(v)) = (dst, v) {
                s.fr().regs[d as usize] = v;
            }
            match normal {
                Some(nb) => match e.enter(s, nb, stop)? {
                    Step::Go => Ok(()),
                    _ => Err("a call ends at a loop header".into()),
                },
                None => {
                    s.fr().ip += 1;
                    Ok(())
                }
            }
        };
        if outs.is_empty() {
            adv(self, st, val)?;
            return Ok(Step::Go);
        }
        let mut v = vec![];
        for (mut s, x) in outs {
            self.sync_in(&mut s);
            adv(self, &mut s, x)?;
            v.push(s);
        }
        self.forks += v.len() as u64;
        Ok(Step::Fork(v))
    }
}
