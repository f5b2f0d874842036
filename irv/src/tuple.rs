//! TupleHash against the contracts of the cSHAKE class it is built on.  Every call of a cSHAKE member is replaced by
//! that member's contract: an abstract machine keeps, per cSHAKE object, the bytes absorbed so far.  Obligations:
//!   ctor      constructs the cSHAKE object with (d, "TupleHash", S);
//!   nextData  appends left_encode(8m) || X, for every element size m and every content;
//!   finalize  appends right_encode(8d) and finalizes; accessors/copies/comparison are those of the cSHAKE object.
use super::*;

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Byte(N),
    Range(N, N),
    Reset,
    Fin,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Orig(N, Vec<Op>),
    New(Vec<N>), // constructor call record
    Moved,
}
const CTOR: u32 = 1;
const COPY: u32 = 2;
const MOVE: u32 = 3;
const ASG: u32 = 4;
const MASG: u32 = 5;
const DTOR: u32 = 6;
const ADD: u32 = 7;
const FIN: u32 = 8;
const RESET: u32 = 9;
const VEC: u32 = 10;
const STR: u32 = 11;
const EQ: u32 = 12;
const NE: u32 = 13;

pub fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '<' && !o.ends_with("operator") {
            d += 1;
        } else if c == '>' && d > 0 {
            d -= 1;
        } else if d == 0 {
            o.push(c);
        }
        i += 1;
    }
    o
}
pub fn demangle(names: &[String]) -> Res<Vec<String>> {
    use std::io::Write;
    let mut ch = std::process::Command::new("c++filt").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().map_err(|e| format!("c++filt: {}", e))?;
    let mut si = ch.stdin.take().ok_or("c++filt")?;
    let text = names.join("\n") + "\n";
    let h = std::thread::spawn(move || si.write_all(text.as_bytes()));
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = h.join();
    let v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
    if v.len() != names.len() {
        return Err("c++filt".into());
    }
    Ok(v)
}

impl<'m> V<'m> {
    fn cshake_hooks(&mut self) -> Res<HashMap<usize, Hook>> {
        let names: Vec<String> = self.e.m.funcs.iter().map(|f| f.name.clone()).collect();
        let dem = demangle(&names)?;
        let mut h = HashMap::default();
        for (i, d) in dem.iter().enumerate() {
            let s = strip(d).replace("[abi:cxx11]", "").replace("std::__cxx11::", "std::");
            let a = "Chocobo1::CSHAKEAlias";
            let b = "Chocobo1::Hash::CShake_NS::CShake";
            let own = [a, b];
            let mut tag = 0;
            let mut act = HookAct::Receiver;
            for o in own {
                let short = o.rsplit("::").next().unwrap();
                let rest = match s.strip_prefix(&format!("{}::", o)) {
                    Some(r) => r,
                    None => continue,
                };
                for x in own {
                    if rest == format!("{}({} const&)", short, x) {
                        tag = COPY;
                    }
                    if rest == format!("{}({}&&)", short, x) {
                        tag = MOVE;
                    }
                    if rest == format!("operator=({} const&)", x) {
                        tag = ASG;
                    }
                    if rest == format!("operator=({}&&)", x) {
                        tag = MASG;
                    }
                }
                if rest == format!("{}(int, std::basic_string const&, std::basic_string const&)", short) {
                    tag = CTOR;
                    act = HookAct::Strings(vec![2, 3]);
                }
                if rest == format!("~{}()", short) {
                    tag = DTOR;
                }
                if rest == "addData(gsl::span)" || rest == "addData(std::span)" {
                    tag = ADD;
                    act = HookAct::Bytes;
                }
                if rest == "finalize()" {
                    tag = FIN;
                }
                if rest == "reset()" {
                    tag = RESET;
                }
                if rest == "toVector() const" {
                    tag = VEC;
                }
                if rest == "toString() const" {
                    tag = STR;
                }
            }
            for (n, t) in [("==", EQ), ("!=", NE)] {
                if s == format!("Chocobo1::Hash::CShake_NS::operator{n}({b} const&, {b} const&)", n = n, b = b) {
                    tag = t;
                }
            }
            if tag != 0 {
                h.insert(i, Hook { tag, act });
            }
        }
        Ok(h)
    }
    fn set_act(&mut self, tag: u32, act: HookAct) {
        for h in self.e.hooks.values_mut() {
            if h.tag & 0xff == tag {
                h.act = act.clone();
            }
        }
    }
    fn tag(&self, rec: &[N]) -> u32 {
        self.e.c.cval(rec[0]).unwrap_or(0) as u32 & 0xff
    }
    /// run the abstract machine over the calls recorded in s; addresses are normalised pointers
    fn abs(&mut self, s: &State, vals: &mut HashMap<N, Val>) -> Res<()> {
        for rec in &s.calls {
            let t = self.tag(rec);
            if t == VEC || t == STR || t == EQ || t == NE {
                continue;
            }
            let me = self.e.c.norm_ptr(rec[1]);
            let other = |v: &HashMap<N, Val>, x: N| v.get(&x).cloned().ok_or_else(|| "a cSHAKE object of unknown state is used".to_string());
            match t {
                CTOR => {
                    vals.insert(me, Val::New(rec.clone()));
                }
                COPY | ASG => {
                    let o = self.e.c.norm_ptr(rec[2]);
                    let v = other(vals, o)?;
                    if t == ASG {
                        other(vals, me)?;
                    }
                    vals.insert(me, v);
                }
                MOVE | MASG => {
                    let o = self.e.c.norm_ptr(rec[2]);
                    let v = other(vals, o)?;
                    if t == MASG {
                        other(vals, me)?;
                    }
                    if o != me {
                        vals.insert(o, Val::Moved);
                        vals.insert(me, v);
                    }
                }
                DTOR => {
                    other(vals, me)?;
                    vals.remove(&me);
                }
                _ => {
                    let (o, mut ops) = match other(vals, me)? {
                        Val::Orig(o, ops) => (o, ops),
                        _ => return Err("operation on a new or moved-from cSHAKE object".into()),
                    };
                    match t {
                        RESET => ops = vec![Op::Reset],
                        FIN => ops.push(Op::Fin),
                        _ => {
                            let ip = (2..4.min(rec.len())).find(|i| self.e.c.op(rec[*i]) == O::Ptr);
                            let (p, l) = match ip {
                                Some(2) => (rec[2], rec[3]),
                                Some(_) => (rec[3], rec[2]),
                                None => {
                                    // null pointer: only with length 0
                                    if rec.len() >= 4 && self.e.c.cval(rec[2]) == Some(0) && self.e.c.cval(rec[3]) == Some(0) {
                                        continue;
                                    }
                                    return Err("the range passed to addData is not a pointer and a length".into());
                                }
                            };
                            if rec.len() > 4 {
                                for b in &rec[4..] {
                                    ops.push(Op::Byte(*b));
                                }
                            } else if self.e.c.cval(l) == Some(0) {
                            } else if matches!(s.objs[self.e.c.nd(p).imm as usize].kind, OK::Region(_)) {
                                ops.push(Op::Range(self.e.c.norm_ptr(p), l));
                            } else {
                                return Err("a range of symbolic length in local memory".into());
                            }
                        }
                    }
                    vals.insert(me, Val::Orig(o, ops));
                }
            }
        }
        Ok(())
    }
    /// normal form: adjacent ranges joined, ranges of constant length not expanded
    fn same_ops(&mut self, st: &State, got: &[Op], want: &[Op]) -> bool {
        let mut g: Vec<Op> = vec![];
        self.e.c.set_rng(&st.rng);
        for o in got {
            if let (Op::Range(p, l), Some(Op::Range(q, k))) = (o, g.last().cloned()) {
                let (nq, np) = (self.e.c.nd(q).clone(), self.e.c.nd(*p).clone());
                let end = self.e.c.add(nq.a[0], k);
                if nq.imm == np.imm && self.eqn(st, end, np.a[0]) {
                    let t = self.e.c.add(k, *l);
                    g.pop();
                    g.push(Op::Range(q, t));
                    continue;
                }
            }
            g.push(o.clone());
        }
        g.len() == want.len()
            && g.iter().zip(want).all(|(a, b)| match (a, b) {
                (Op::Byte(x), Op::Byte(y)) => self.eqn(st, *x, *y),
                (Op::Range(p, l), Op::Range(q, k)) => {
                    let (x, y) = (self.e.c.nd(*p).clone(), self.e.c.nd(*q).clone());
                    x.imm == y.imm && self.eqn(st, x.a[0], y.a[0]) && self.eqn(st, *l, *k)
                }
                (a, b) => a == b,
            })
    }
    fn eqn(&mut self, st: &State, a: N, b: N) -> bool {
        if a == b {
            return true;
        }
        let mut memo: FxMap<N, N> = FxMap::default();
        self.e.c.set_rng(&st.rng);
        let (a, b) = (self.deep(st, a, &mut memo), self.deep(st, b, &mut memo));
        if a == b {
            return true;
        }
        if self.e.c.w(a) != self.e.c.w(b) {
            return false;
        }
        self.e.c.decide_eq(a, b, &st.path).0 == Verdict::Proved
    }
    fn show_ops(&self, o: &[Op]) -> String {
        o.iter()
            .map(|x| match x {
                Op::Byte(b) => format!("byte({})", self.e.c.show(*b, 3)),
                Op::Range(p, l) => format!("range({}, {})", self.e.c.show(*p, 2), self.e.c.show(*l, 3)),
                o => format!("{:?}", o),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    /// a freshly constructed object for digest lengths in [lo, hi]; the cSHAKE member's address
    fn tup_obj(&mut self, lo: i128, hi: i128, name: &str) -> Res<(State, u32, N, u32)> {
        let mut st = self.fresh();
        let d = self.newsym(&mut st, name, lo, hi);
        let (st, o, p) = self.tup_more(st, d)?;
        Ok((st, o, p, d))
    }
    fn tup_more(&mut self, mut st: State, d: u32) -> Res<(State, u32, N)> {
        let dn = self.e.c.lin_node(lin(vec![(d, 1)], 0), 32);
        let o = st.new_obj(self.size, OK::Driver, "object", self.e.uninit);
        let op = self.ptr(o, 0);
        let s = st.new_obj(4 * self.pw() as u64 / 8 + if self.pw() == 32 { 8 } else { 0 }, OK::Driver, "string", self.e.uninit);
        let sp = self.ptr(s, 0);
        let mut r = self.one(st, "k_ctor", &[op, dn, sp], "construction")?;
        let mut me = None;
        for rec in &r.calls {
            if self.tag(rec) == CTOR && self.e.c.nd(rec[1]).imm as u32 == o && self.e.c.op(rec[1]) == O::Ptr {
                me = Some(self.e.c.norm_ptr(rec[1]));
            }
        }
        r.calls.clear();
        Ok((r, o, me.ok_or("the constructor does not construct a cSHAKE member inside the object")?))
    }
    fn rest(&self, st: &State, o: u32, me: N) -> Vec<Cell> {
        let off = self.e.c.cval(self.e.c.nd(me).a[0]).unwrap_or(0) as u64;
        let ob = &st.objs[o as usize];
        (0..self.size).filter(|x| *x < off || *x >= off + self.inner).map(|x| ob.get(x)).collect()
    }
    fn kept(&mut self, a: &State, b: &State, o: u32, me: N, what: &str) -> Res<()> {
        if self.rest(a, o, me) != self.rest(b, o, me) {
            return Err(format!("{}: members other than the cSHAKE object change", what));
        }
        Ok(())
    }
    fn part(&mut self, cats: &[&'static str], r: Res<()>) {
        match r {
            Ok(()) => self.rep.done.extend(cats.iter()),
            Err(e) => self.rep.bad("engine", "unsupported", format!("{}: {}", cats[0], e), false),
        }
    }
    pub fn verify_tuple(&mut self) -> Res<()> {
        let st = self.fresh();
        let s = self.one(st, "k_size", &[], "sizeof")?;
        self.size = self.e.c.cval(s.ret.ok_or("size")?).ok_or("size")? as u64;
        let st = self.fresh();
        let s = self.one(st, "k_inner", &[], "sizeof")?;
        self.inner = self.e.c.cval(s.ret.ok_or("size")?).ok_or("size")? as u64;
        self.e.hooks = self.cshake_hooks()?;
        self.e.max_steps = 20_000_000;
        for t in [CTOR, ADD, FIN, VEC] {
            if !self.e.hooks.values().any(|h| h.tag == t) {
                return Err(format!("cSHAKE member {} not found", t));
            }
        }
        let r = self.tup_ctor();
        self.part(&["ctor"], r);
        let r = self.tup_next();
        self.part(&["step"], r);
        let r = self.tup_fin();
        self.part(&["fin"], r);
        let r = self.tup_acc();
        self.part(&["out", "acc"], r);
        let r = self.tup_reset();
        self.part(&["reset"], r);
        let r = self.tup_copy();
        self.part(&["copy"], r);
        let r = self.tup_eq();
        self.part(&["eq"], r);
        let r = self.tup_over();
        self.part(&["overload"], r);
        self.rep.done.push("safety");
        self.log("done");
        Ok(())
    }
    fn bytes_match(&mut self, rec: &[N], at: &mut usize, want: &[N], ptr: N, owner: Option<N>) -> Res<bool> {
        // rec[at] = 0x5000_0000 + length followed by the content; absent content: identity of the string object
        let m = *rec.get(*at).ok_or("constructor record")?;
        let v = self.e.c.cval(m).unwrap_or(0);
        *at += 1;
        if v == 0x4fff_ffff {
            return Ok(owner == Some(self.e.c.norm_ptr(ptr)));
        }
        let l = (v - 0x5000_0000) as usize;
        let b = rec[*at..*at + l].to_vec();
        *at += l;
        if owner.is_some() && want.is_empty() && b.is_empty() && owner != Some(self.e.c.norm_ptr(ptr)) {
            return Ok(false);
        }
        Ok(b.len() == want.len() && b.iter().zip(want).all(|(x, y)| self.same(*x, *y).0))
    }
    fn tup_ctor(&mut self) -> Res<()> {
        let name: Vec<N> = b"TupleHash".iter().map(|x| self.e.c.c(8, *x as u128)).collect();
        // S: an arbitrary string object (passed on as it is), else strings of some lengths with arbitrary content
        let mut variants: Vec<Option<u64>> = vec![None];
        let mut k = 0;
        while k < variants.len() {
            let var = variants[k];
            k += 1;
            let mut st = self.fresh();
            let d = self.newsym(&mut st, "d", 0, (1 << 31) - 1);
            let dn = self.e.c.lin_node(lin(vec![(d, 1)], 0), 32);
            let o = st.new_obj(self.size, OK::Driver, "object", self.e.uninit);
            let op = self.ptr(o, 0);
            let pb = self.pw() as u64 / 8;
            let sz = if pb == 8 { 32 } else { 24 };
            let s = st.new_obj(sz, OK::Driver, "string", self.e.uninit);
            let mut content = vec![];
            if let Some(l) = var {
                let (ob, base) = if l > 15 { (st.new_obj(l + 1, OK::Driver, "chars", self.e.uninit), 0) } else { (s, 2 * pb) };
                for i in 0..l {
                    let b = self.e.c.bsym(&format!("s{}", i), 8, false);
                    content.push(b);
                    st.obj_mut(ob).set(base + i, Cell { n: b, k: 0 });
                }
                let z = self.e.c.c(8, 0);
                st.obj_mut(ob).set(base + l, Cell { n: z, k: 0 });
                let (dp, ln) = (self.ptr(ob, base), self.cn(l));
                self.e.put(&mut st, s, 0, dp, pb);
                self.e.put(&mut st, s, pb, ln, pb);
                if l > 15 {
                    self.e.put(&mut st, s, 2 * pb, ln, pb);
                }
            }
            let sp = self.ptr(s, 0);
            let outs = match self.call(st, "k_ctor", &[op, dn, sp], "construction") {
                Ok(o) => o,
                Err(e) => {
                    if var.is_none() {
                        variants.extend([Some(0), Some(5), Some(40)]);
                        self.rep.notes.push(format!("bounded: constructor with customization strings of 0, 5 and 40 arbitrary bytes only ({})", e));
                        continue;
                    }
                    return Err(e);
                }
            };
            if outs.is_empty() {
                return Err("constructor has no normal return".into());
            }
            for r in &outs {
                let ct: Vec<Vec<N>> = r.calls.iter().filter(|c| self.e.c.op(c[1]) == O::Ptr && self.e.c.nd(c[1]).imm as u32 == o).cloned().collect();
                if ct.len() != 1 || self.tag(&ct[0]) != CTOR {
                    return Err("the constructor does more than constructing its cSHAKE member".into());
                }
                let c = &ct[0];
                let mut at = 5;
                let dlen = self.eqn(r, c[2], dn);
                let n = self.bytes_match(c, &mut at, &name, c[3], None)?;
                let cu = self.bytes_match(c, &mut at, &content, c[4], if var.is_none() { Some(sp) } else { None })?;
                if var.is_none() && !cu && dlen && n {
                    variants.extend([Some(0), Some(5), Some(40)]);
                    self.rep.notes.push("bounded: constructor with customization strings of 0, 5 and 40 arbitrary bytes only".into());
                    continue;
                }
                for (ok, what) in [(dlen, "the digest length is passed to cSHAKE unchanged"), (n, "the function name is \"TupleHash\""), (cu, "the customization string is passed to cSHAKE unchanged")] {
                    if ok {
                        self.rep.good("ctor", what, 1);
                    } else {
                        self.rep.bad("ctor", "cshake-arguments", format!("not so: {} (|S| {})", what, var.map_or("arbitrary".into(), |l| l.to_string())), false);
                    }
                }
            }
        }
        // the default customization string is empty
        let mut st = self.fresh();
        let d = self.newsym(&mut st, "d", 0, (1 << 31) - 1);
        let dn = self.e.c.lin_node(lin(vec![(d, 1)], 0), 32);
        let o = st.new_obj(self.size, OK::Driver, "object", self.e.uninit);
        let op = self.ptr(o, 0);
        let r = self.one(st, "k_ctor1", &[op, dn], "construction, default S")?;
        let c = r.calls.iter().find(|c| self.tag(c) == CTOR).cloned().ok_or("no cSHAKE member is constructed")?;
        let mut at = 5;
        let n = self.bytes_match(&c, &mut at, &name, c[3], None)?;
        let cu = self.bytes_match(&c, &mut at, &[], c[4], None)?;
        if n && cu && self.eqn(&r, c[2], dn) {
            self.rep.good("ctor", "without a customization string the empty one is used", 1);
        } else {
            self.rep.bad("ctor", "cshake-arguments", "constructor without customization string".into(), false);
        }
        Ok(())
    }
    /// [lo, hi] ranges in which 8*sz*m takes the same number of bytes; (lo, hi, bytes)
    fn ranges(sz: i128, max: i128) -> Vec<(i128, i128, u32)> {
        let mut v = vec![(0, 0, 1)];
        let mut lo = 1i128;
        for k in 1..=7u32 {
            let hi = (((1i128 << (8 * k)) - 1) / (8 * sz)).min(max);
            if lo <= hi {
                v.push((lo, hi, k));
                lo = hi + 1;
            }
        }
        v
    }
    /// where to divide [lo, hi]: preferably where the bit length of 8*sz*m changes
    fn split_at(lo: i128, hi: i128, sz: i128) -> i128 {
        let top = 127 - (8 * sz * hi).leading_zeros();
        let x = ((1i128 << top) + 8 * sz - 1) / (8 * sz);
        if x > lo && x <= hi {
            x - 1
        } else {
            lo + (hi - lo) / 2
        }
    }
    fn encode(&mut self, bits: N, k: u32, left: bool) -> Vec<Op> {
        let n = self.e.c.c(8, k as u128);
        let mut v: Vec<Op> = (0..k).rev().map(|i| Op::Byte(self.e.c.ext(bits, 8 * i, 8))).collect();
        if left {
            v.insert(0, Op::Byte(n));
        } else {
            v.push(Op::Byte(n));
        }
        v
    }
    fn elem(&mut self, fun: &str, sz: i128, span: bool, null: bool, cat: &str) -> Res<()> {
        let pw = self.pw();
        let max = if pw == 64 { (1i128 << 52) / sz } else { ((1i128 << 31) - 1) / sz };
        let mut todo: Vec<(i128, i128, u32)> = if !span || null {
            let b = if null { 0 } else { 8 * sz };
            vec![(1, 1, (1..=7).find(|k| b < 1i128 << (8 * k)).unwrap())]
        } else {
            Self::ranges(sz, max)
        };
        let mut n = 0;
        let mut splits = 0;
        while let Some((lo, hi, k)) = todo.pop() {
            let (st, o, me, _) = self.tup_obj(0, (1 << 31) - 1, "d")?;
            let mut st = st;
            let op = self.ptr(o, 0);
            let m = self.newsym_in(&mut st, "m", lo, hi);
            let size = if !span { lin(vec![], sz) } else { lin(vec![(m, sz)], 0) };
            let size = if null { lin(vec![], 0) } else { size };
            let bn = self.e.c.lin_node(size.clone(), pw);
            let mut bits = size.clone();
            for t in bits.t.iter_mut() {
                t.1 *= 8;
            }
            bits.c *= 8;
            let bits = self.e.c.lin_node(bits, 64);
            let r = self.region(&mut st, R1, 0, bn);
            let p = if null { self.cn(0) } else { self.ptr(r, 0) };
            let args = if span {
                let cnt = if null { self.cn(0) } else { self.e.c.lin_node(lin(vec![(m, 1)], 0), pw) };
                vec![op, p, cnt]
            } else {
                vec![op, p]
            };
            let outs = match self.call(st.clone(), fun, &args, "element") {
                Ok(o) => o,
                Err(e) if e.contains("symbolic fl") && lo < hi && splits < 300 => {
                    splits += 1;
                    let mid = Self::split_at(lo, hi, sz);
                    todo.push((lo, mid, k));
                    todo.push((mid + 1, hi, k));
                    continue;
                }
                Err(e) => return Err(e),
            };
            let mut want = self.encode(bits, k, true);
            if !null && (lo, hi) != (0, 0) {
                want.push(Op::Range(self.e.c.norm_ptr(p), bn));
            }
            for s in &outs {
                let mut vals = HashMap::default();
                vals.insert(me, Val::Orig(me, vec![]));
                self.abs(s, &mut vals)?;
                let got = match vals.get(&me) {
                    Some(Val::Orig(x, ops)) if *x == me => ops.clone(),
                    _ => return Err("state of the cSHAKE member".into()),
                };
                self.kept(&st, s, o, me, fun)?;
                if !s.ret.map_or(false, |x| self.e.c.norm_ptr(x) == op) {
                    self.rep.bad(cat, fun, "does not return the object".into(), false);
                }
                if self.same_ops(s, &got, &want) {
                    n += 1;
                } else {
                    let (g, w) = (self.show_ops(&got), self.show_ops(&want));
                    self.rep.bad(cat, fun, format!("element of {}..{} items of {} bytes: absorbs {} specified {}", lo, hi, sz, g, w), false);
                    todo.clear();
                }
            }
            if outs.is_empty() {
                return Err(format!("{} does not return", fun));
            }
        }
        if n > 0 {
            self.rep.good(cat, &format!("{} absorbs left_encode(8m) and the element", fun), n);
        }
        Ok(())
    }
    fn newsym_in(&mut self, st: &mut State, name: &str, lo: i128, hi: i128) -> u32 {
        self.newsym(st, name, lo, hi)
    }
    fn tup_next(&mut self) -> Res<()> {
        self.elem("k_add_span", 1, true, false, "step")?;
        self.elem("k_add_span", 1, true, true, "step")
    }
    fn tup_over(&mut self) -> Res<()> {
        for (f, z) in [("k_add", 1), ("k_span_u16", 2), ("k_span_u32", 4), ("k_span_u64", 8), ("k_span_mut8", 1), ("k_span_i32", 4), ("k_span_ch", 1), ("k_span_mut64", 8)] {
            self.elem(f, z, true, false, "overload")?;
        }
        self.elem("k_add", 1, true, true, "overload")?;
        for (f, z) in [("k_arr_a1", 1), ("k_arr_a5", 5), ("k_arr_a300", 300), ("k_arr_w3", 6), ("k_arr_d7", 28), ("k_arr_q33", 264), ("k_arr_c4", 4), ("k_arr_aL", 70001), ("k_arr_dL", 80004), ("k_arr_aH", 0x100000003), ("k_arr_qH", 0x100000008)] {
            if self.e.m.fnames.contains_key(f) {
                self.elem(f, z, false, false, "overload")?;
            }
        }
        Ok(())
    }
    fn tup_fin(&mut self) -> Res<()> {
        let mut todo = Self::ranges(1, (1 << 31) - 1);
        let mut splits = 0;
        while let Some((lo, hi, k)) = todo.pop() {
            let (st, o, me, d) = self.tup_obj(lo, hi, "d")?;
            let op = self.ptr(o, 0);
            let outs = match self.call(st.clone(), "k_fin", &[op], "finalize") {
                Ok(o) => o,
                Err(e) if e.contains("symbolic fl") && lo < hi && splits < 300 => {
                    splits += 1;
                    let mid = Self::split_at(lo, hi, 1);
                    todo.push((lo, mid, k));
                    todo.push((mid + 1, hi, k));
                    continue;
                }
                Err(e) => return Err(e),
            };
            let bits = self.e.c.lin_node(lin(vec![(d, 8)], 0), 64);
            let mut want = self.encode(bits, k, false);
            want.push(Op::Fin);
            for s in &outs {
                let mut vals = HashMap::default();
                vals.insert(me, Val::Orig(me, vec![]));
                self.abs(s, &mut vals)?;
                let got = match vals.get(&me) {
                    Some(Val::Orig(x, ops)) if *x == me => ops.clone(),
                    _ => return Err("state of the cSHAKE member".into()),
                };
                self.kept(&st, s, o, me, "finalize")?;
                let ret = s.ret.map_or(false, |x| self.e.c.norm_ptr(x) == op);
                if ret && self.same_ops(s, &got, &want) {
                    self.rep.good("fin", "finalize absorbs right_encode(8d) and finalizes the cSHAKE object", 1);
                } else {
                    let (g, w) = (self.show_ops(&got), self.show_ops(&want));
                    self.rep.bad("fin", "finalize", format!("digest length {}..{}: absorbs {} specified {}", lo, hi, g, w), false);
                    todo.clear();
                }
            }
            if outs.is_empty() {
                return Err("finalize does not return".into());
            }
        }
        Ok(())
    }
    fn only_reads(&mut self, s: &State, me: N, tags: &[u32]) -> Res<()> {
        for c in &s.calls {
            // c[1] is where the result goes
            if !tags.contains(&self.tag(c)) || self.e.c.norm_ptr(c[2]) != me {
                return Err("other operations on the cSHAKE member than expected".into());
            }
        }
        Ok(())
    }
    fn tup_acc(&mut self) -> Res<()> {
        let nib = self.e.c.table(4, 8, b"0123456789abcdef".iter().map(|x| *x as u128).collect());
        for k in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 33] {
            let bytes: Vec<N> = (0..k).map(|i| self.e.c.bsym(&format!("D{}", i), 8, false)).collect();
            let mut hex = vec![];
            for x in &bytes {
                for sh in [4, 0] {
                    let y = self.e.c.ext(*x, sh, 4);
                    hex.push(self.e.c.tab(nib, y));
                }
            }
            let kn = self.cn(k as u64);
            self.set_act(VEC, HookAct::Vector(bytes.clone(), kn));
            self.set_act(STR, HookAct::String(hex.clone()));
            for (fun, want, cat) in [("k_vec", &bytes, "out"), ("k_str", &hex, "acc")] {
                let (mut st, o, me, _) = self.tup_obj(0, (1 << 31) - 1, "d")?;
                let op = self.ptr(o, 0);
                let b = st.new_obj(want.len() as u64 + 64, OK::Driver, "result", self.e.uninit);
                let bp = self.ptr(b, 0);
                let s = self.one(st.clone(), fun, &[op, bp], fun)?;
                self.only_reads(&s, me, &[VEC, STR])?;
                self.unchanged(&st, &s, &[o], fun);
                let mut ok = s.ret.and_then(|r| self.e.c.cval(r)) == Some(want.len() as u128);
                for (i, x) in want.iter().enumerate() {
                    let c = s.objs[b as usize].get(i as u64);
                    ok = ok && c.n != self.e.uninit && self.e.byte_of(c).map_or(false, |y| self.same(y, *x).0);
                }
                if ok {
                    self.rep.good(cat, &format!("{} is the digest of the cSHAKE object", fun), want.len() as u64 + 1);
                } else {
                    self.rep.bad(cat, fun, format!("differs from the cSHAKE object's digest of {} bytes", k), false);
                }
            }
        }
        // numeric conversions: every length
        let mut lens: Vec<Option<usize>> = (0..=8).map(Some).collect();
        lens.push(None);
        for l in lens {
            let k = l.unwrap_or(8);
            let bytes: Vec<N> = (0..k).map(|i| self.e.c.bsym(&format!("D{}", i), 8, false)).collect();
            for (fun, w) in [("k_op8", 8), ("k_op16", 16), ("k_op32", 32), ("k_op64", 64), ("k_hash", self.pw())] {
                let (mut st, o, me, _) = self.tup_obj(0, (1 << 31) - 1, "d")?;
                let op = self.ptr(o, 0);
                let kn = match l {
                    Some(k) => self.cn(k as u64),
                    None => {
                        let s = self.newsym(&mut st, "len", 8, (1 << 31) - 1);
                        self.e.c.lin_node(lin(vec![(s, 1)], 0), self.pw())
                    }
                };
                self.set_act(VEC, HookAct::Vector(bytes.clone(), kn));
                let s = self.one(st.clone(), fun, &[op], fun)?;
                self.only_reads(&s, me, &[VEC])?;
                self.unchanged(&st, &s, &[o], fun);
                let n = k.min(w as usize / 8);
                let v = if n == 0 { self.e.c.c(w, 0) } else { self.e.c.cat(bytes[..n].to_vec()) };
                let v = self.e.c.zext(v, w);
                let r = s.ret.ok_or("no value")?;
                let (ok, rf) = self.same(r, v);
                if ok {
                    self.rep.good("acc", &format!("{} is the big-endian prefix", fun), 1);
                } else {
                    self.rep.bad("acc", fun, format!("digest of {} bytes: {}", k, self.e.c.show(r, 4)), rf);
                }
            }
        }
        Ok(())
    }
    fn tup_reset(&mut self) -> Res<()> {
        let (st, o, me, _) = self.tup_obj(0, (1 << 31) - 1, "d")?;
        let op = self.ptr(o, 0);
        let s = self.one(st.clone(), "k_reset", &[op], "reset")?;
        let mut vals = HashMap::default();
        vals.insert(me, Val::Orig(me, vec![]));
        self.abs(&s, &mut vals)?;
        self.kept(&st, &s, o, me, "reset")?;
        if vals.get(&me) == Some(&Val::Orig(me, vec![Op::Reset])) {
            self.rep.good("reset", "reset resets the cSHAKE object and keeps everything else", 1);
        } else {
            self.rep.bad("reset", "reset", "the cSHAKE object is not reset".into(), false);
        }
        Ok(())
    }
    fn tup_copy(&mut self) -> Res<()> {
        for (fun, new, mv) in [("k_copy", true, false), ("k_move", true, true), ("k_assign", false, false), ("k_massign", false, true)] {
            for same in [false, true] {
                if same && (new || mv) {
                    continue;
                }
                let mut st = self.fresh();
                let d1 = self.newsym(&mut st, "d", 0, (1 << 31) - 1);
                let d2 = self.newsym(&mut st, "d'", 0, (1 << 31) - 1);
                let (st, b, mb) = self.tup_more(st, d1)?;
                let (mut st, a, ma) = if new { (st, 0, mb) } else if same { (st, b, mb) } else { self.tup_more(st, d2)? };
                let a = if new { st.new_obj(self.size, OK::Driver, "object", self.e.uninit) } else { a };
                let ma = if new {
                    let off = self.e.c.nd(mb).a[0];
                    self.e.c.ptr(a, off)
                } else {
                    ma
                };
                let (ap, bp) = (self.ptr(a, 0), self.ptr(b, 0));
                let s = self.one(st.clone(), fun, &[ap, bp], fun)?;
                let mut vals = HashMap::default();
                vals.insert(mb, Val::Orig(mb, vec![]));
                if !new {
                    vals.insert(ma, Val::Orig(ma, vec![]));
                }
                self.abs(&s, &mut vals)?;
                let src = vals.get(&mb).cloned();
                let dst = vals.get(&ma).cloned();
                let mut ok = dst == Some(Val::Orig(mb, vec![]));
                if !mv {
                    ok &= src == Some(Val::Orig(mb, vec![]));
                } else {
                    ok &= src.is_some();
                }
                let live = vals.len() == if same { 1 } else { 2 };
                if ok && live {
                    self.rep.good("copy", &format!("{} copies the cSHAKE object{}", fun, if same { " (self)" } else { "" }), 1);
                } else {
                    self.rep.bad("copy", fun, format!("the cSHAKE member: source {:?}, target {:?}, {} objects", src, dst, vals.len()), false);
                }
                let want = self.rest(&st, b, mb);
                if self.rest(&s, a, ma) == want && (mv || self.rest(&s, b, mb) == want) {
                    self.rep.good("copy", &format!("{} copies the other members", fun), 1);
                } else {
                    self.rep.bad("copy", fun, "the other members are not copied".into(), false);
                }
            }
        }
        let (st, o, me, _) = self.tup_obj(0, (1 << 31) - 1, "d")?;
        let op = self.ptr(o, 0);
        let s = self.one(st, "k_dtor", &[op], "destruction")?;
        let mut vals = HashMap::default();
        vals.insert(me, Val::Orig(me, vec![]));
        self.abs(&s, &mut vals)?;
        if vals.is_empty() {
            self.rep.good("copy", "destruction destroys the cSHAKE object", 1);
        } else {
            self.rep.bad("copy", "k_dtor", "the cSHAKE object is not destroyed".into(), false);
        }
        Ok(())
    }
    fn tup_eq(&mut self) -> Res<()> {
        let r = self.e.c.bsym("same", 1, false);
        let nr = self.e.c.not(r);
        self.set_act(EQ, HookAct::Value(r));
        self.set_act(NE, HookAct::Value(nr));
        for (fun, want) in [("k_eq", r), ("k_ne", nr)] {
            let mut st = self.fresh();
            let d1 = self.newsym(&mut st, "d", 0, (1 << 31) - 1);
            let d2 = self.newsym(&mut st, "d'", 0, (1 << 31) - 1);
            let (st, a, ma) = self.tup_more(st, d1)?;
            let (st, b, mb) = self.tup_more(st, d2)?;
            let (ap, bp) = (self.ptr(a, 0), self.ptr(b, 0));
            let (v, outs) = self.bool_call(&st, fun, ap, bp, fun)?;
            for s in &outs {
                for c in &s.calls {
                    let t = self.tag(c);
                    let (x, y) = (self.e.c.norm_ptr(c[1]), self.e.c.norm_ptr(c[2]));
                    if (t != EQ && t != NE) || !((x == ma && y == mb) || (x == mb && y == ma)) {
                        return Err("comparison of other objects than the cSHAKE members".into());
                    }
                }
                self.unchanged(&st, s, &[a, b], fun);
            }
            let (ok, rf) = self.same(v, want);
            if ok {
                self.rep.good("eq", &format!("{} compares the cSHAKE objects", fun), 1);
            } else {
                self.rep.bad("eq", fun, "is not the comparison of the cSHAKE objects".into(), rf);
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------------ the cSHAKE wrapper over the sponge's contract
    fn sponge_hooks(&mut self) -> Res<HashMap<usize, Hook>> {
        let names: Vec<String> = self.e.m.funcs.iter().map(|f| f.name.clone()).collect();
        let dem = demangle(&names)?;
        let mut h = HashMap::default();
        let a = "Chocobo1::SHAKEAlias";
        let b = "Chocobo1::Hash::SHA3_NS::Keccak";
        let own = [a, b];
        for (i, d) in dem.iter().enumerate() {
            let s = strip(d).replace("[abi:cxx11]", "").replace("std::__cxx11::", "std::");
            let mut tag = 0;
            let mut act = HookAct::Receiver;
            for o in own {
                let short = o.rsplit("::").next().unwrap();
                let rest = match s.strip_prefix(&format!("{}::", o)) {
                    Some(r) => r,
                    None => continue,
                };
                for x in own {
                    for (pat, t) in [(format!("{}({} const&)", short, x), COPY), (format!("{}({}&&)", short, x), MOVE), (format!("operator=({} const&)", x), ASG), (format!("operator=({}&&)", x), MASG)] {
                        if rest == pat {
                            tag = t;
                        }
                    }
                }
                if rest == format!("{}(int)", short) {
                    tag = CTOR;
                }
                if rest == format!("~{}()", short) {
                    tag = DTOR;
                }
                if rest == "addData(gsl::span)" || rest == "addData(std::span)" {
                    tag = ADD;
                    act = HookAct::Bytes;
                }
                for (pat, t) in [("finalize()", FIN), ("reset()", RESET), ("toVector() const", VEC), ("toString() const", STR)] {
                    if rest == pat {
                        tag = t;
                    }
                }
            }
            for (n, t) in [("==", EQ), ("!=", NE)] {
                if s == format!("Chocobo1::Hash::SHA3_NS::operator{n}({b} const&, {b} const&)", n = n, b = b) {
                    tag = t;
                }
            }
            if tag != 0 {
                // rate and suffix of the sponge
                if let Some(x) = d.find("Keccak<") {
                    let t: Vec<u32> = d[x + 7..].split('>').next().unwrap().split(',').filter_map(|y| y.trim().parse().ok()).collect();
                    if t.len() == 2 {
                        tag |= t[0] << 8 | t[1] << 20;
                    }
                }
                h.insert(i, Hook { tag, act });
            }
        }
        Ok(h)
    }
    fn put_string(&mut self, st: &mut State, l: u64, pre: &str) -> (u32, Vec<N>) {
        let pb = self.pw() as u64 / 8;
        let s = st.new_obj(if pb == 8 { 32 } else { 24 }, OK::Driver, "string", self.e.uninit);
        let (ob, base) = if l > 15 { (st.new_obj(l + 1, OK::Driver, "chars", self.e.uninit), 0) } else { (s, 2 * pb) };
        let mut content = vec![];
        for i in 0..l {
            let b = self.e.c.bsym(&format!("{}{}", pre, i), 8, false);
            content.push(b);
            st.obj_mut(ob).set(base + i, Cell { n: b, k: 0 });
        }
        let z = self.e.c.c(8, 0);
        st.obj_mut(ob).set(base + l, Cell { n: z, k: 0 });
        let (dp, ln) = (self.ptr(ob, base), self.cn(l));
        self.e.put(st, s, 0, dp, pb);
        self.e.put(st, s, pb, ln, pb);
        if l > 15 {
            self.e.put(st, s, 2 * pb, ln, pb);
        }
        (s, content)
    }
    /// a constructed wrapper object; its live sponge and that sponge's construction record
    fn shell(&mut self, mut st: State, d: &str, n: u64, s: u64, pre: &str) -> Res<(State, u32, N, Vec<N>, Vec<Op>)> {
        let d = self.newsym(&mut st, d, 0, (1 << 31) - 1);
        let dn = self.e.c.lin_node(lin(vec![(d, 1)], 0), 32);
        let o = st.new_obj(self.size, OK::Driver, "object", self.e.uninit);
        let op = self.ptr(o, 0);
        let (so, nc) = self.put_string(&mut st, n, &format!("{}N", pre));
        let (to, sc) = self.put_string(&mut st, s, &format!("{}S", pre));
        let (np, sp) = (self.ptr(so, 0), self.ptr(to, 0));
        let before = st.calls.len();
        let r = self.one(st, "k_ctor", &[op, dn, np, sp], "construction")?;
        let mut t = r.clone();
        t.calls.drain(..before);
        let mut vals = HashMap::default();
        // a record of construction counts as the start of a history
        let mut news = vec![];
        for c in &t.calls {
            if self.tag(c) == CTOR {
                let me = self.e.c.norm_ptr(c[1]);
                news.push((me, c.clone()));
            }
        }
        for (me, _) in &news {
            vals.insert(*me, Val::Orig(*me, vec![]));
        }
        t.calls.retain(|c| self.tag(c) != CTOR);
        self.abs(&t, &mut vals)?;
        if news.len() != 1 || vals.len() != 1 {
            return Err("the constructor leaves more than one sponge".into());
        }
        let (me, rec) = news.pop().unwrap();
        let ops = match vals.get(&me) {
            Some(Val::Orig(_, ops)) => ops.clone(),
            _ => return Err("sponge state".into()),
        };
        let dl = self.eqn(&r, rec[2], dn);
        let info = self.e.c.cval(rec[0]).unwrap_or(0) as u32;
        let (rate, suf) = (info >> 8 & 0xfff, info >> 20);
        let want_rate = if self.cl.id.ends_with("128") { 168 } else { 136 };
        let want_suf = if n + s == 0 { 31 } else { 4 };
        let want = if n + s == 0 { vec![] } else { self.prefix(want_rate as u64, &nc, &sc) };
        let mut fresh = ops.clone();
        if fresh.first() == Some(&Op::Reset) {
            fresh.remove(0);
        }
        let name = format!("|N| = {}, |S| = {}", n, s);
        if !dl || rate != want_rate || suf != want_suf {
            self.rep.bad("ctor", "sponge-arguments", format!("{}: sponge of rate {} and suffix {}, output length passed on: {}", name, rate, suf, dl), false);
        } else if !self.same_ops(&r, &fresh, &want) {
            let at = fresh.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(fresh.len().min(want.len()));
            let m = format!("{}: absorbs {} bytes, specified {}; first difference at byte {}", name, fresh.len(), want.len(), at);
            self.rep.bad("ctor", "prefix", m, false);
        } else {
            self.rep.good("ctor", "the sponge of the right kind absorbs bytepad(encode_string(N) || encode_string(S), rate), for every d and content", 1);
        }
        let mut r = r;
        r.calls.clear();
        Ok((r, o, me, rec, want))
    }
    fn prefix(&mut self, rate: u64, n: &[N], s: &[N]) -> Vec<Op> {
        let mut v: Vec<Op> = vec![];
        let mut left = |c: &mut Ctx, x: u64, v: &mut Vec<Op>| {
            let k = (1..=8u32).find(|k| *k == 8 || x < 1u64 << (8 * k)).unwrap();
            v.push(Op::Byte(c.c(8, k as u128)));
            for i in (0..k).rev() {
                v.push(Op::Byte(c.c(8, (x >> (8 * i) & 0xff) as u128)));
            }
        };
        left(&mut self.e.c, rate, &mut v);
        for x in [n, s] {
            left(&mut self.e.c, 8 * x.len() as u64, &mut v);
            v.extend(x.iter().map(|b| Op::Byte(*b)));
        }
        while v.len() as u64 % rate != 0 {
            v.push(Op::Byte(self.e.c.c(8, 0)));
        }
        v
    }
    /// run one operation on objects whose sponges have the given states
    fn shell_call(&mut self, st: &State, f: &str, args: &[N], vals: &HashMap<N, Val>) -> Res<Vec<(State, HashMap<N, Val>)>> {
        let outs = self.call(st.clone(), f, args, f)?;
        if outs.is_empty() {
            return Err(format!("{} does not return", f));
        }
        let mut v = vec![];
        for s in outs {
            let mut m = vals.clone();
            self.abs(&s, &mut m)?;
            let mut s = s;
            s.calls.clear();
            v.push((s, m));
        }
        Ok(v)
    }
    /// resetting the object must leave a sponge of origin `org` with the prefix absorbed
    fn resets_to(&mut self, st: &State, obj: N, vals: &HashMap<N, Val>, org: N, prefix: &[Op]) -> Res<bool> {
        let mut want = vec![Op::Reset];
        want.extend(prefix.iter().cloned());
        let mut ok = true;
        for (s, m) in self.shell_call(st, "k_reset", &[obj], vals)? {
            let mut hit = 0;
            let l: Vec<Val> = m.values().cloned().collect();
            for v in l {
                if let Val::Orig(o, ops) = v {
                    if o == org && ops.first() == Some(&Op::Reset) && self.same_ops(&s, &ops, &want) {
                        hit += 1;
                    }
                }
            }
            ok &= hit == 1;
        }
        Ok(ok)
    }
    pub fn verify_shell(&mut self) -> Res<()> {
        let st = self.fresh();
        let s = self.one(st, "k_size", &[], "sizeof")?;
        self.size = self.e.c.cval(s.ret.ok_or("size")?).ok_or("size")? as u64;
        self.e.hooks = self.sponge_hooks()?;
        self.e.max_steps = 400_000_000;
        for t in [CTOR, ADD, FIN, VEC] {
            if !self.e.hooks.values().any(|h| h.tag & 0xff == t) {
                return Err(format!("sponge member {} not found", t));
            }
        }
        let rate = if self.cl.id.ends_with("128") { 168u64 } else { 136 };
        let r = self.shell_ctor(rate);
        self.part(&["ctor"], r);
        let r = self.shell_ops();
        self.part(&["step", "fin", "out", "acc", "reset", "copy", "eq", "overload"], r);
        self.rep.done.push("safety");
        self.log("done");
        Ok(())
    }
    fn shell_ctor(&mut self, rate: u64) -> Res<()> {
        let mut l: Vec<(u64, u64)> = vec![];
        // every length of S up to twice the rate, every split around the rate, the length-encoding thresholds
        for s in 0..2 * rate + 8 {
            l.push((0, s));
            l.push((s, 0));
        }
        for n in (0..rate).step_by(7) {
            l.push((n, rate - n));
            l.push((n, rate - 6 - n.min(rate - 6)));
            l.push((n, (rate + 31 - n) / 2));
        }
        l.extend([(9, 13), (31, 31), (31, 32), (32, 31), (32, 32), (255, 256), (300, 5), (8191, 0), (0, 8191), (8192, 0), (0, 8192), (9, 65535), (9, 65536), (65536, 3), (70000, 70000)]);
        for (n, s) in l {
            let st = self.fresh();
            self.shell(st, "d", n, s, "")?;
            if self.rep.fails.iter().filter(|f| f.cat == "ctor").count() >= 3 {
                break;
            }
        }
        self.rep.notes.push("bounded: the lengths of N and S are taken from a fixed set; their contents and d are arbitrary".into());
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn shell_copy(&mut self, st3: &State, fun: &str, dst: N, op: N, op2: N, me: N, vals: &HashMap<N, Val>, prefix: &[Op], (new, mv, same): (bool, bool, bool)) -> Res<bool> {
        let mut all = true;
                    for (t, v) in self.shell_call(st3, fun, &[dst, op], vals)? {
                        // both sponges of interest: who has the source's state now
                        let copies = v.values().filter(|x| **x == Val::Orig(me, vec![])).count();
                        let mut good = copies == if mv || same { 1 } else { 2 };
                        // finalizing the target must act on a sponge with the source's state
                        for (_, v2) in self.shell_call(&t, "k_fin", &[dst], &v)? {
                            good &= v2.values().filter(|x| **x == Val::Orig(me, vec![Op::Fin])).count() == 1 && v2.values().filter(|x| matches!(x, Val::Orig(_, o) if o.contains(&Op::Fin))).count() == 1;
                            if !mv && !same {
                                // and the source still has its own
                                good &= v2.get(&me) == Some(&Val::Orig(me, vec![]));
                            }
                        }
                        good &= self.resets_to(&t, dst, &v, me, prefix)?;
                        if !mv {
                            good &= self.resets_to(&t, op, &v, me, prefix)?;
                        }
                        // destroying both destroys every sponge
                        let mut left = 0;
                        for (t, v) in self.shell_call(&t, "k_dtor", &[dst], &v)? {
                            if same {
                                continue;
                            }
                            for (t, v) in self.shell_call(&t, "k_dtor", &[op], &v)? {
                                let rest: Vec<(State, HashMap<N, Val>)> = if new { self.shell_call(&t, "k_dtor", &[op2], &v)? } else { vec![(t, v)] };
                                for (_, v) in rest {
                                    left += v.len();
                                }
                            }
                        }
                        good &= left == 0;
                        all &= good;
                    }
        Ok(all)
    }
    fn shell_ops(&mut self) -> Res<()> {
        let kinds: [(u64, u64); 4] = [(0, 0), (0, 40), (33, 0), (9, 200)];
        for (n, s) in kinds {
            let st = self.fresh();
            let (st, o, me, _, prefix) = self.shell(st, "d", n, s, "")?;
            let op = self.ptr(o, 0);
            let mut vals: HashMap<N, Val> = HashMap::default();
            vals.insert(me, Val::Orig(me, vec![]));
            let ok = |v: &HashMap<N, Val>, w: Vec<Op>| v.len() == 1 && v.get(&me) == Some(&Val::Orig(me, w));
            // addData
            let mut st2 = st.clone();
            let hi = if self.pw() == 64 { 1i128 << 60 } else { (1 << 31) - 1 };
            for (lo, hi) in [(0, 0), (1, hi)] {
                let mut st3 = st2.clone();
                let m = self.newsym(&mut st3, "m", lo, hi);
                let pw = self.pw();
                let mn = self.e.c.lin_node(lin(vec![(m, 1)], 0), pw);
                let r = self.region(&mut st3, R1, 0, mn);
                let p = self.ptr(r, 0);
                for (t, v) in self.shell_call(&st3, "k_add_span", &[op, p, mn], &vals)? {
                    let got = match v.get(&me) {
                        Some(Val::Orig(x, ops)) if *x == me && v.len() == 1 => ops.clone(),
                        _ => return Err("state of the sponge".into()),
                    };
                    let want = if hi == 0 { vec![] } else { vec![Op::Range(p, mn)] };
                    let ret = t.ret.map_or(false, |x| self.e.c.norm_ptr(x) == op);
                    if ret && self.same_ops(&t, &got, &want) {
                        self.rep.good("step", "addData passes exactly its bytes to the sponge", 1);
                    } else {
                        let g = self.show_ops(&got);
                        self.rep.bad("step", "k_add_span", format!("absorbs {}", g), false);
                    }
                    // the object can still be reset
                    if hi == 0 {
                        if self.resets_to(&t, op, &vals, me, &prefix)? {
                            self.rep.good("reset", "reset restores the freshly constructed state, prefix included", 1);
                        } else {
                            self.rep.bad("reset", "reset", format!("|N| = {}, |S| = {}: not the state after construction", n, s), false);
                        }
                    }
                }
            }
            st2 = st.clone();
            for (t, v) in self.shell_call(&st2, "k_fin", &[op], &vals)? {
                let ret = t.ret.map_or(false, |x| self.e.c.norm_ptr(x) == op);
                if ret && ok(&v, vec![Op::Fin]) {
                    self.rep.good("fin", "finalize finalizes the sponge", 1);
                } else {
                    self.rep.bad("fin", "finalize", format!("sponge {:?}", v.values().collect::<Vec<_>>()), false);
                }
                if self.resets_to(&t, op, &v, me, &prefix)? {
                    self.rep.good("reset", "reset restores the freshly constructed state, prefix included", 1);
                } else {
                    self.rep.bad("reset", "reset", format!("|N| = {}, |S| = {}: not the state after construction", n, s), false);
                }
            }
            // accessors
            let nib = self.e.c.table(4, 8, b"0123456789abcdef".iter().map(|x| *x as u128).collect());
            for k in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 33] {
                let bytes: Vec<N> = (0..k).map(|i| self.e.c.bsym(&format!("D{}", i), 8, false)).collect();
                let mut hex = vec![];
                for x in &bytes {
                    for sh in [4, 0] {
                        let y = self.e.c.ext(*x, sh, 4);
                        hex.push(self.e.c.tab(nib, y));
                    }
                }
                let kn = self.cn(k as u64);
                self.set_act(VEC, HookAct::Vector(bytes.clone(), kn));
                self.set_act(STR, HookAct::String(hex.clone()));
                for (fun, want, cat) in [("k_vec", &bytes, "out"), ("k_str", &hex, "acc")] {
                    let mut st3 = st.clone();
                    let b = st3.new_obj(want.len() as u64 + 64, OK::Driver, "result", self.e.uninit);
                    let bp = self.ptr(b, 0);
                    let t = self.one(st3.clone(), fun, &[op, bp], fun)?;
                    self.only_reads(&t, me, &[VEC, STR])?;
                    self.unchanged(&st3, &t, &[o], fun);
                    let mut good = t.ret.and_then(|r| self.e.c.cval(r)) == Some(want.len() as u128);
                    for (i, x) in want.iter().enumerate() {
                        let c = t.objs[b as usize].get(i as u64);
                        good = good && c.n != self.e.uninit && self.e.byte_of(c).map_or(false, |y| self.same(y, *x).0);
                    }
                    if good {
                        self.rep.good(cat, &format!("{} is the sponge's output", fun), want.len() as u64 + 1);
                    } else {
                        self.rep.bad(cat, fun, format!("differs from the sponge's output of {} bytes", k), false);
                    }
                }
                for (fun, w) in [("k_op8", 8), ("k_op16", 16), ("k_op32", 32), ("k_op64", 64), ("k_hash", self.pw())] {
                    let t = self.one(st.clone(), fun, &[op], fun)?;
                    self.only_reads(&t, me, &[VEC])?;
                    let n = k.min(w as usize / 8);
                    let v = if n == 0 { self.e.c.c(w, 0) } else { self.e.c.cat(bytes[..n].to_vec()) };
                    let v = self.e.c.zext(v, w);
                    let r = t.ret.ok_or("no value")?;
                    if self.same(r, v).0 {
                        self.rep.good("acc", &format!("{} is the big-endian prefix", fun), 1);
                    } else {
                        self.rep.bad("acc", fun, format!("output of {} bytes: {}", k, self.e.c.show(r, 4)), false);
                    }
                }
            }
            // copies between objects of every kind
            for (n2, s2) in kinds {
                let (st, o2, me2, _, _) = self.shell(st.clone(), "d'", n2, s2, "x")?;
                let op2 = self.ptr(o2, 0);
                let mut vals = vals.clone();
                vals.insert(me2, Val::Orig(me2, vec![]));
                let mut st3 = st.clone();
                let fr = st3.new_obj(self.size, OK::Driver, "object", self.e.uninit);
                let frp = self.ptr(fr, 0);
                for (fun, new, mv, same) in [("k_copy", true, false, false), ("k_move", true, true, false), ("k_assign", false, false, false), ("k_massign", false, true, false), ("k_assign", false, false, true)] {
                    let dst = if new { frp } else if same { op } else { op2 };
                    let what = format!("{}{} (|N|, |S|) = ({}, {}) to ({}, {})", fun, if same { " self" } else { "" }, n, s, n2, s2);
                    match self.shell_copy(&st3, fun, dst, op, op2, me, &vals, &prefix, (new, mv, same)) {
                        Ok(true) => self.rep.good("copy", &format!("{}: the target gets sponge and prefix of the source, objects stay independent", fun), 1),
                        Ok(false) => self.rep.bad("copy", fun, what.clone(), false),
                        Err(e) if e.contains("unknown state") || e.contains("moved-from") => self.rep.bad("copy", fun, format!("{}: {}", what, e), false),
                        Err(e) => return Err(e),
                    }
                }
                // comparison
                let plain = n + s == 0;
                let plain2 = n2 + s2 == 0;
                let r = self.e.c.bsym("same", 1, false);
                let nr = self.e.c.not(r);
                self.set_act(EQ, HookAct::Value(r));
                self.set_act(NE, HookAct::Value(nr));
                let zero = self.e.c.c(1, 0);
                let one = self.e.c.c(1, 1);
                for (fun, x, y) in [("k_eq", op, op2), ("k_eq", op2, op), ("k_ne", op, op2)] {
                    let (v, outs) = self.bool_call(&st, fun, x, y, fun)?;
                    for t in &outs {
                        for c in &t.calls {
                            let g = self.tag(c);
                            let (p, q) = (self.e.c.norm_ptr(c[1]), self.e.c.norm_ptr(c[2]));
                            if (g != EQ && g != NE) || !((p == me && q == me2) || (p == me2 && q == me)) {
                                return Err("comparison of other objects than the two sponges".into());
                            }
                        }
                        self.unchanged(&st, t, &[o, o2], fun);
                    }
                    let want = match (plain == plain2, fun) {
                        (true, "k_eq") => r,
                        (true, _) => nr,
                        (false, "k_eq") => zero,
                        (false, _) => one,
                    };
                    if self.same(v, want).0 {
                        self.rep.good("eq", "comparison is that of the sponges; objects with different kinds of sponge differ", 1);
                    } else {
                        self.rep.bad("eq", fun, format!("(|N|, |S|) = ({}, {}) and ({}, {})", n, s, n2, s2), false);
                    }
                }
            }
        }
        Ok(())
    }
}
