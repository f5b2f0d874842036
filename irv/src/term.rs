//! Hash-consed bit-vector terms with local simplification, random-sample signatures and
//! on-the-fly rewriting of code terms to specification terms (each rewrite is a proved obligation).
use crate::ir::{mask, sext};
use std::hash::{BuildHasherDefault, Hasher};

pub type N = u32;
pub const NL: usize = 4; // sample lanes

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
/// deterministic hashing everywhere: a run must be reproducible
pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum O {
    Const,
    Undef,
    F64,
    Ptr,  // imm = object, a0 = byte offset
    Fn,   // imm = function id
    Sym,  // imm = symbol id (opaque bit-vector)
    Lin,  // imm = index into lins (affine form over size symbols)
    InB,  // imm = region, a0 = offset: one byte of symbolic input
    Tab,  // imm = table id, a0 = index
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite,
    Cat, // imm = list id, msb first
    Ext, // imm = lo
    Agg, // imm = list id
    App, // imm = list id; uninterpreted application (a0 = function tag)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub o: O,
    pub w: u32,
    pub a: [N; 3],
    pub imm: u128,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Lin {
    pub t: Vec<(u32, i128)>,
    pub c: i128,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub iw: u32,
    pub w: u32,
    pub v: Vec<u128>,
    pub linear: bool,
}

#[derive(Clone, Debug)]
pub struct ASym {
    pub name: String,
    pub sample: [i128; NL],
}

#[derive(Clone, Debug)]
pub struct BSym {
    pub name: String,
    pub w: u32,
    pub havoc: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub structural: u64,
    pub anf: u64,
    pub lin: u64,
    pub exhaustive: u64,
    pub congruence: u64,
    pub smt: u64,
    pub smt_ms: u64,
    pub prover_ms: u64,
    pub failed: u64,
    pub slow_local: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.structural += o.structural;
        self.anf += o.anf;
        self.lin += o.lin;
        self.exhaustive += o.exhaustive;
        self.congruence += o.congruence;
        self.smt += o.smt;
        self.smt_ms += o.smt_ms;
        self.prover_ms += o.prover_ms;
        self.failed += o.failed;
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub smp: Vec<[u128; NL]>,
    pub kz: Vec<u128>, // known-zero bits (within width)
    pub spec: Vec<bool>,
    pub map: FxMap<Node, N>,
    pub lists: Vec<Vec<N>>,
    lmap: FxMap<Vec<N>, u32>,
    pub lins: Vec<Lin>,
    linmap: FxMap<Lin, u32>,
    pub tables: Vec<Table>,
    tmap: HashMap<(u32, u32, Vec<u128>), u32>,
    pub asyms: Vec<ASym>,
    pub bsyms: Vec<BSym>,
    pub rng: Vec<(i128, i128)>, // current path's ranges of the affine symbols
    pub rng0: Vec<(i128, i128)>, // current path's ranges of the affine symbols
    pub sym_sig: Vec<u64>, // which symbols (mod 64) a node mentions
    pub spec_mode: bool,
    pub match_on: bool,
    pub in_proof: bool,
    pub sigs: FxMap<(u32, u128, u128), N>,
    pub tried: FxMap<(N, N), bool>,
    pub stats: Stats,
    pub deadline: Option<std::time::Instant>,
    pub seed: u64,
    pub ptr_bits: u32,
    pub failed_pairs: Vec<(N, N)>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix128(a: u64, b: u64) -> u128 {
    let x = mix(a ^ mix(b));
    let y = mix(x ^ 0x1234567);
    (x as u128) << 64 | y as u128
}
pub fn ones(w: u32) -> u128 {
    mask(!0, w)
}

impl Ctx {
    pub fn late(&self) -> bool {
        self.deadline.map_or(false, |d| std::time::Instant::now() > d)
    }
    pub fn new(seed: u64, ptr_bits: u32) -> Ctx {
        Ctx {
            nodes: vec![],
            smp: vec![],
            kz: vec![],
            spec: vec![],
            map: FxMap::default(),
            lists: vec![],
            lmap: FxMap::default(),
            lins: vec![],
            linmap: FxMap::default(),
            tables: vec![],
            tmap: HashMap::default(),
            asyms: vec![],
            bsyms: vec![],
            rng: vec![],
            rng0: vec![],
            sym_sig: vec![],
            spec_mode: false,
            match_on: false,
            in_proof: false,
            sigs: FxMap::default(),
            tried: FxMap::default(),
            stats: Stats::default(),
            deadline: std::env::var("IRV_TIMEOUT").ok().and_then(|s| s.parse().ok()).map(|s: u64| std::time::Instant::now() + std::time::Duration::from_secs(s)),
            seed,
            ptr_bits,
            failed_pairs: vec![],
        }
    }
    pub fn w(&self, n: N) -> u32 {
        self.nodes[n as usize].w
    }
    pub fn op(&self, n: N) -> O {
        self.nodes[n as usize].o
    }
    pub fn nd(&self, n: N) -> &Node {
        &self.nodes[n as usize]
    }
    pub fn args(&self, n: N) -> Vec<N> {
        let nd = &self.nodes[n as usize];
        match nd.o {
            O::Cat | O::Agg | O::App => self.lists[nd.imm as usize].clone(),
            O::Const | O::Undef | O::F64 | O::Fn | O::Sym | O::Lin => vec![],
            O::Ptr | O::InB | O::Tab | O::Ext => vec![nd.a[0]],
            O::Ite => vec![nd.a[0], nd.a[1], nd.a[2]],
            _ => vec![nd.a[0], nd.a[1]],
        }
    }
    pub fn list(&mut self, l: Vec<N>) -> u32 {
        if let Some(i) = self.lmap.get(&l) {
            return *i;
        }
        let i = self.lists.len() as u32;
        self.lists.push(l.clone());
        self.lmap.insert(l, i);
        i
    }
    pub fn table(&mut self, iw: u32, w: u32, v: Vec<u128>) -> u32 {
        let k = (iw, w, v);
        if let Some(i) = self.tmap.get(&k) {
            return *i;
        }
        let i = self.tables.len() as u32;
        let v = k.2.clone();
        let mut linear = v.len().is_power_of_two();
        if linear {
            let z = v[0];
            for x in 0..v.len() {
                let mut e = z;
                let mut b = 0;
                while (1usize << b) < v.len() {
                    if (x >> b) & 1 == 1 {
                        e ^= v[1 << b] ^ z;
                    }
                    b += 1;
                }
                if e != v[x] {
                    linear = false;
                    break;
                }
            }
        }
        self.tables.push(Table { iw, w, v, linear });
        self.tmap.insert(k, i);
        i
    }
    // ---------------------------------------------------------------- evaluation
    pub fn eval_op(&self, nd: &Node, av: &dyn Fn(usize) -> u128, aw: &dyn Fn(usize) -> u32) -> u128 {
        let w = nd.w;
        let m = |x: u128| mask(x, w);
        match nd.o {
            O::Const => nd.imm,
            O::Add => m(av(0).wrapping_add(av(1))),
            O::Sub => m(av(0).wrapping_sub(av(1))),
            O::Mul => m(av(0).wrapping_mul(av(1))),
            O::UDiv => {
                if av(1) == 0 {
                    ones(w)
                } else {
                    av(0) / av(1)
                }
            }
            O::URem => {
                if av(1) == 0 {
                    av(0)
                } else {
                    av(0) % av(1)
                }
            }
            O::SDiv => {
                let (a, b) = (sext(av(0), w), sext(av(1), w));
                if b == 0 {
                    if a < 0 { 1 } else { ones(w) }
                } else {
                    m(a.wrapping_div(b) as u128)
                }
            }
            O::SRem => {
                let (a, b) = (sext(av(0), w), sext(av(1), w));
                if b == 0 {
                    av(0)
                } else {
                    m(a.wrapping_rem(b) as u128)
                }
            }
            O::And => av(0) & av(1),
            O::Or => av(0) | av(1),
            O::Xor => av(0) ^ av(1),
            O::Shl => {
                let s = av(1);
                if s >= w as u128 { 0 } else { m(av(0) << s as u32) }
            }
            O::LShr => {
                let s = av(1);
                if s >= w as u128 { 0 } else { av(0) >> s as u32 }
            }
            O::AShr => {
                let s = av(1).min(w as u128 - 1);
                m((sext(av(0), w) >> s as u32) as u128)
            }
            O::Eq => (av(0) == av(1)) as u128,
            O::Ult => (av(0) < av(1)) as u128,
            O::Slt => (sext(av(0), aw(0)) < sext(av(1), aw(1))) as u128,
            O::Ite => {
                if av(0) & 1 == 1 { av(1) } else { av(2) }
            }
            O::Cat => {
                let l = &self.lists[nd.imm as usize];
                let mut r = 0u128;
                for i in 0..l.len() {
                    let wi = aw(i);
                    r = if wi >= 128 { av(i) } else { (r << wi) | av(i) };
                }
                r
            }
            O::Ext => m(av(0) >> nd.imm as u32),
            O::Tab => {
                let t = &self.tables[nd.imm as usize];
                let i = av(0) as usize;
                t.v.get(i).cloned().unwrap_or(0)
            }
            _ => 0,
        }
    }
    fn sample(&self, nd: &Node) -> [u128; NL] {
        let mut r = [0u128; NL];
        match nd.o {
            O::Const => return [nd.imm; NL],
            O::Sym => {
                for l in 0..NL {
                    r[l] = mask(mix128(self.seed ^ (nd.imm as u64).wrapping_mul(77) ^ 0x5151, l as u64), nd.w);
                }
                return r;
            }
            O::Lin => {
                let li = &self.lins[nd.imm as usize];
                for l in 0..NL {
                    let mut v = li.c;
                    for (s, k) in &li.t {
                        v = v.wrapping_add(k.wrapping_mul(self.asyms[*s as usize].sample[l]));
                    }
                    r[l] = mask(v as u128, nd.w);
                }
                return r;
            }
            O::InB => {
                let o = &self.smp[nd.a[0] as usize];
                for l in 0..NL {
                    r[l] = mask(mix128(self.seed ^ (o[l] as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ ((nd.imm as u64) << 40), l as u64 + 100), nd.w);
                }
                return r;
            }
            O::App => {
                let l = &self.lists[nd.imm as usize];
                for k in 0..NL {
                    let mut h = self.seed ^ nd.a[0] as u64;
                    for x in l {
                        let v = self.smp[*x as usize][k];
                        h = mix(h ^ v as u64);
                        h = mix(h ^ (v >> 64) as u64);
                    }
                    r[k] = mask(mix128(h, k as u64), nd.w);
                }
                return r;
            }
            O::Undef | O::F64 | O::Ptr | O::Fn | O::Agg => {
                let h = mix128(nd.imm as u64 ^ 0xabc, nd.a[0] as u64 ^ ((nd.o as u64) << 32));
                return [mask(h, nd.w.max(1)); NL];
            }
            _ => {}
        }
        let args: &[N] = match nd.o {
            O::Cat => &self.lists[nd.imm as usize],
            _ => &nd.a,
        };
        for l in 0..NL {
            r[l] = self.eval_op(nd, &|i| self.smp[args[i] as usize][l], &|i| self.nodes[args[i] as usize].w);
        }
        r
    }
    fn known_zero(&self, nd: &Node) -> u128 {
        let full = ones(nd.w);
        let k = |i: usize| self.kz[nd.a[i] as usize];
        let lz = |z: u128, w: u32| -> u32 {
            let t = z | !ones(w);
            (!t).leading_zeros() - (128 - w)
        };
        let hz = |n: u32, w: u32| -> u128 {
            if n == 0 { 0 } else { ones(w) & !ones(w - n.min(w)) }
        };
        match nd.o {
            O::Const => full & !nd.imm,
            O::And => k(0) | k(1),
            O::Or | O::Xor => k(0) & k(1),
            O::Ite => k(1) & k(2),
            O::Add => {
                let l = lz(k(0), nd.w).min(lz(k(1), nd.w));
                let t = (k(0).trailing_ones()).min(k(1).trailing_ones()).min(nd.w);
                hz(l.saturating_sub(1), nd.w) | ones(t)
            }
            O::Mul => {
                let t = (k(0).trailing_ones() + k(1).trailing_ones()).min(nd.w);
                ones(t)
            }
            O::Cat => {
                let mut r = 0u128;
                for x in &self.lists[nd.imm as usize] {
                    let w = self.w(*x);
                    r = if w >= 128 { self.kz[*x as usize] } else { (r << w) | self.kz[*x as usize] };
                }
                r
            }
            O::Ext => mask(k(0) >> nd.imm as u32, nd.w),
            O::Tab => {
                let t = &self.tables[nd.imm as usize];
                let o = t.v.iter().fold(0u128, |a, b| a | b);
                full & !o
            }
            O::URem => {
                if let Some(c) = self.cval(nd.a[1]) {
                    if c > 0 {
                        return hz(lz(full & !((c - 1).next_power_of_two().max(c - 1) | ones(128 - (c - 1).leading_zeros())), nd.w), nd.w);
                    }
                }
                0
            }
            O::LShr | O::UDiv => hz(lz(k(0), nd.w), nd.w),
            _ => 0,
        }
    }
    fn sig_of(&self, nd: &Node) -> u64 {
        match nd.o {
            O::Const | O::Undef | O::F64 | O::Fn => 0,
            O::Sym => 1 << ((nd.imm * 7 + 31) % 64),
            O::Lin => self.lins[nd.imm as usize].t.iter().fold(0, |a, x| a | 1 << (x.0 % 64)),
            O::Cat | O::Agg | O::App => self.lists[nd.imm as usize].iter().fold(0, |a, x| a | self.sym_sig[*x as usize]),
            O::Ptr | O::InB | O::Tab | O::Ext => self.sym_sig[nd.a[0] as usize],
            O::Ite => nd.a.iter().fold(0, |a, x| a | self.sym_sig[*x as usize]),
            _ => self.sym_sig[nd.a[0] as usize] | self.sym_sig[nd.a[1] as usize],
        }
    }
    /// create or find a node (no simplification)
    pub fn mk(&mut self, o: O, w: u32, a: [N; 3], imm: u128) -> N {
        let nd = Node { o, w, a, imm };
        if let Some(i) = self.map.get(&nd) {
            let i = *i;
            if self.spec_mode && !self.spec[i as usize] {
                self.reg_spec(i);
            }
            // a node built before the specification term it equals
            if self.match_on && !self.in_proof && !self.spec[i as usize] && self.matchable(o, w) {
                return self.try_match(nd, i);
            }
            return i;
        }
        let s = self.sample(&nd);
        let kz = self.known_zero(&nd);
        let sg = self.sig_of(&nd);
        self.sym_sig.push(sg);
        let i = self.nodes.len() as N;
        self.nodes.push(nd.clone());
        self.smp.push(s);
        self.kz.push(kz);
        self.spec.push(false);
        self.map.insert(nd.clone(), i);
        if self.spec_mode {
            self.reg_spec(i);
        } else if self.match_on && !self.in_proof && self.matchable(o, w) {
            return self.try_match(nd, i);
        }
        i
    }
    fn matchable(&self, o: O, w: u32) -> bool {
        w >= 8 && w <= 128 && !matches!(o, O::Const | O::Undef | O::F64 | O::Ptr | O::Fn | O::Sym | O::Lin | O::InB | O::Agg | O::App)
    }
    /// replace code node i by the specification node with the same samples, once the two are proved equal
    fn try_match(&mut self, nd: Node, i: N) -> N {
        let s = self.smp[i as usize];
        if let Some(&c) = self.sigs.get(&(nd.w, s[0] ^ s[2].rotate_left(64), s[1] ^ s[3].rotate_left(64))) {
            if c != i && self.smp[c as usize] == s {
                if self.prove_rewrite(i, c) {
                    self.map.insert(nd, c);
                    return c;
                }
            }
        }
        i
    }
    fn reg_spec(&mut self, i: N) {
        self.spec[i as usize] = true;
        let nd = &self.nodes[i as usize];
        if matches!(nd.o, O::Const | O::Lin | O::Undef) || nd.w < 8 {
            return;
        }
        let s = self.smp[i as usize];
        let k = (nd.w, s[0] ^ s[2].rotate_left(64), s[1] ^ s[3].rotate_left(64));
        self.sigs.entry(k).or_insert(i);
    }
    pub fn c(&mut self, w: u32, v: u128) -> N {
        self.mk(O::Const, w, [0; 3], mask(v, w))
    }
    pub fn cval(&self, n: N) -> Option<u128> {
        let nd = &self.nodes[n as usize];
        if nd.o == O::Const {
            Some(nd.imm)
        } else {
            None
        }
    }
    pub fn undef(&mut self, w: u32) -> N {
        self.mk(O::Undef, w, [0; 3], 0)
    }
    pub fn bsym(&mut self, name: &str, w: u32, havoc: bool) -> N {
        let id = self.bsyms.len();
        self.bsyms.push(BSym { name: name.into(), w, havoc });
        self.mk(O::Sym, w, [0; 3], id as u128)
    }
    /// fresh affine (size) symbol with an inclusive integer range
    pub fn asym(&mut self, name: &str, lo: i128, hi: i128) -> u32 {
        let id = self.asyms.len() as u32;
        let mut sample = [0i128; NL];
        for l in 0..NL {
            let span = (hi - lo).min(1 << 100).max(0) as u128 + 1;
            let r = mix128(self.seed ^ (id as u64 * 991), l as u64 + 7) >> 2;
            // mixture: small offsets in half of the lanes
            let r = if l % 2 == 0 { r % span } else { r % span.min(1 << 20) };
            sample[l] = lo + r as i128;
        }
        self.asyms.push(ASym { name: name.into(), sample });
        self.rng.push((lo, hi));
        self.rng0.push((lo, hi));
        id
    }
    pub fn asym_sampled(&mut self, name: &str, lo: i128, hi: i128, sample: [i128; NL]) -> u32 {
        let id = self.asyms.len() as u32;
        self.asyms.push(ASym { name: name.into(), sample });
        self.rng.push((lo, hi));
        self.rng0.push((lo, hi));
        id
    }
    /// switch to a path's ranges; symbols the path does not know yet keep their declared range
    pub fn set_rng(&mut self, r: &[(i128, i128)]) {
        self.rng.clear();
        self.rng.extend_from_slice(r);
        let n = self.rng.len();
        self.rng.extend_from_slice(&self.rng0[n..]);
    }
    // ---------------------------------------------------------------- affine forms
    fn red(v: i128, w: u32) -> i128 {
        sext(mask(v as u128, w), w)
    }
    pub fn lin_node(&mut self, mut l: Lin, w: u32) -> N {
        // substitute pinned symbols, reduce
        let mut c = l.c;
        let rng = &self.rng;
        l.t.retain(|(s, k)| {
            let (lo, hi) = rng[*s as usize];
            if lo == hi {
                c = c.wrapping_add(k.wrapping_mul(lo));
                false
            } else {
                true
            }
        });
        l.c = Self::red(c, w);
        for x in l.t.iter_mut() {
            x.1 = Self::red(x.1, w);
            if w < 120 && x.1 == -(1i128 << (w - 1)) {
                x.1 = -x.1;
            }
        }
        l.t.retain(|x| x.1 != 0);
        if l.t.is_empty() {
            return self.c(w, l.c as u128);
        }
        l.t.sort();
        let id = match self.linmap.get(&l) {
            Some(i) => *i,
            None => {
                let i = self.lins.len() as u32;
                self.lins.push(l.clone());
                self.linmap.insert(l, i);
                i
            }
        };
        self.mk(O::Lin, w, [0; 3], id as u128)
    }
    pub fn sym_lin(&mut self, s: u32, w: u32) -> N {
        self.lin_node(Lin { t: vec![(s, 1)], c: 0 }, w)
    }
    /// view as affine form (after applying pinned ranges)
    pub fn as_lin(&self, n: N) -> Option<Lin> {
        let nd = self.nd(n);
        match nd.o {
            O::Const => Some(Lin { t: vec![], c: sext(nd.imm, nd.w) }),
            O::Lin => {
                let l = &self.lins[nd.imm as usize];
                let mut c = l.c;
                let mut t = Vec::with_capacity(l.t.len());
                for (s, k) in &l.t {
                    let (lo, hi) = self.rng[*s as usize];
                    if lo == hi {
                        c = c.wrapping_add(k.wrapping_mul(lo));
                    } else {
                        t.push((*s, *k));
                    }
                }
                Some(Lin { t, c: Self::red(c, nd.w) })
            }
            _ => None,
        }
    }
    pub fn lin_add(a: &Lin, b: &Lin, k: i128) -> Lin {
        let mut r = Lin { t: vec![], c: a.c.wrapping_add(b.c.wrapping_mul(k)) };
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                r.t.push(a.t[i]);
                i += 1;
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                r.t.push((b.t[j].0, b.t[j].1.wrapping_mul(k)));
                j += 1;
            } else {
                let v = a.t[i].1.wrapping_add(b.t[j].1.wrapping_mul(k));
                if v != 0 {
                    r.t.push((a.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        r
    }
    /// integer interval of the affine form (as mathematical integers), None on overflow
    pub fn lin_rng(&self, l: &Lin) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (l.c, l.c);
        for (s, k) in &l.t {
            let (a, b) = self.rng[*s as usize];
            let (x, y) = (k.checked_mul(a)?, k.checked_mul(b)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    /// canonical unsigned representation: affine form whose integer value equals the unsigned value of n
    pub fn lin_unsigned(&self, n: N) -> Option<(Lin, i128, i128)> {
        let w = self.w(n);
        let l = self.as_lin(n)?;
        let (lo, hi) = self.lin_rng(&l)?;
        if lo >= 0 && (w >= 127 || hi < (1i128 << w)) {
            return Some((l, lo, hi));
        }
        if w < 127 {
            // shift by multiples of 2^w
            let m = 1i128 << w;
            if lo >= -m && hi < 0 {
                let mut l2 = l.clone();
                l2.c += m;
                return Some((l2, lo + m, hi + m));
            }
        }
        None
    }
    pub fn lin_signed(&self, n: N) -> Option<(Lin, i128, i128)> {
        let w = self.w(n);
        let l = self.as_lin(n)?;
        let (lo, hi) = self.lin_rng(&l)?;
        if w >= 128 || (lo >= -(1i128 << (w - 1)) && hi < (1i128 << (w - 1))) {
            return Some((l, lo, hi));
        }
        None
    }
    /// re-normalise under the current ranges
    pub fn norm(&mut self, n: N) -> N {
        if self.op(n) == O::Lin {
            let l = self.as_lin(n).unwrap();
            let w = self.w(n);
            return self.lin_node(l, w);
        }
        n
    }
    // ---------------------------------------------------------------- ranges
    pub fn urange(&self, n: N, d: u32) -> (u128, u128) {
        let nd = self.nd(n);
        let um = ones(nd.w) & !self.kz[n as usize];
        if d == 0 {
            return (0, um);
        }
        match nd.o {
            O::Const => (nd.imm, nd.imm),
            O::Lin => match self.lin_unsigned(n) {
                Some((_, lo, hi)) => (lo as u128, hi as u128),
                None => (0, ones(nd.w)),
            },
            O::Add => {
                let a = self.urange(nd.a[0], d - 1);
                let b = self.urange(nd.a[1], d - 1);
                match a.1.checked_add(b.1) {
                    Some(h) if h <= ones(nd.w) => (a.0 + b.0, h),
                    _ => (0, um),
                }
            }
            O::Sub => {
                let a = self.urange(nd.a[0], d - 1);
                let b = self.urange(nd.a[1], d - 1);
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    (0, um)
                }
            }
            O::Ite => {
                let a = self.urange(nd.a[1], d - 1);
                let b = self.urange(nd.a[2], d - 1);
                (a.0.min(b.0), a.1.max(b.1))
            }
            O::Cat => {
                let l = &self.lists[nd.imm as usize];
                if l.len() == 2 && self.cval(l[0]) == Some(0) {
                    return self.urange(l[1], d - 1);
                }
                (0, um)
            }
            O::Ext => {
                let (l, h) = self.urange(nd.a[0], d - 1);
                let lo = nd.imm as u32;
                let top = lo + nd.w;
                if top >= 128 || l >> top == h >> top {
                    ((l >> lo) & ones(nd.w), (h >> lo) & ones(nd.w))
                } else {
                    (0, um)
                }
            }
            O::URem => match self.cval(nd.a[1]) {
                Some(c) if c > 0 => (0, (c - 1).min(um)),
                _ => (0, um),
            },
            O::UDiv => match self.cval(nd.a[1]) {
                Some(c) if c > 0 => {
                    let a = self.urange(nd.a[0], d - 1);
                    (a.0 / c, a.1 / c)
                }
                _ => (0, um),
            },
            O::Tab => {
                let t = &self.tables[nd.imm as usize];
                (*t.v.iter().min().unwrap(), *t.v.iter().max().unwrap())
            }
            _ => (0, um),
        }
    }
    pub fn srange(&self, n: N, d: u32) -> (i128, i128) {
        let nd = self.nd(n);
        let w = nd.w;
        let full = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        let u = self.urange(n, d);
        if u.1 <= full.1 as u128 {
            return (u.0 as i128, u.1 as i128);
        }
        if d == 0 {
            return full;
        }
        match nd.o {
            O::Const => {
                let v = sext(nd.imm, w);
                (v, v)
            }
            O::Lin => match self.lin_signed(n) {
                Some((_, a, b)) => (a, b),
                None => full,
            },
            O::Add | O::Sub => {
                let a = self.srange(nd.a[0], d - 1);
                let b = self.srange(nd.a[1], d - 1);
                let (lo, hi) = if nd.o == O::Add { (a.0.checked_add(b.0), a.1.checked_add(b.1)) } else { (a.0.checked_sub(b.1), a.1.checked_sub(b.0)) };
                match (lo, hi) {
                    (Some(lo), Some(hi)) if lo >= full.0 && hi <= full.1 => (lo, hi),
                    _ => full,
                }
            }
            O::Ite => {
                let a = self.srange(nd.a[1], d - 1);
                let b = self.srange(nd.a[2], d - 1);
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => full,
        }
    }
    // ---------------------------------------------------------------- constructors
    pub fn add(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_add(y)),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.as_lin(a), self.as_lin(b)) {
            let l = Self::lin_add(&x, &y, 1);
            return self.lin_node(l, w);
        }
        let full = ones(w);
        if (full & !self.kz[a as usize]) & (full & !self.kz[b as usize]) == 0 {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
        }
        // (x + c1) + c2
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c2) = self.cval(b) {
            let nd = self.nd(a).clone();
            if nd.o == O::Add {
                if let Some(c1) = self.cval(nd.a[1]) {
                    let k = self.c(w, c1.wrapping_add(c2));
                    return self.add(nd.a[0], k);
                }
            }
            return self.mk(O::Add, w, [a, b, 0], 0);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(O::Add, w, [a, b, 0], 0)
    }
    pub fn neg(&mut self, a: N) -> N {
        let w = self.w(a);
        let z = self.c(w, 0);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_sub(y)),
            (_, Some(y)) => {
                let k = self.c(w, (y as i128).wrapping_neg() as u128);
                return self.add(a, k);
            }
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.as_lin(a), self.as_lin(b)) {
            let l = Self::lin_add(&x, &y, -1);
            return self.lin_node(l, w);
        }
        self.mk(O::Sub, w, [a, b, 0], 0)
    }
    pub fn mul(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_mul(y)),
            (_, Some(0)) => return self.c(w, 0),
            (_, Some(1)) => return a,
            (_, Some(y)) => {
                if let Some(l) = self.as_lin(a) {
                    let k = sext(y, w);
                    let l2 = Self::lin_add(&Lin::default(), &l, k);
                    return self.lin_node(l2, w);
                }
                if y.is_power_of_two() {
                    let s = y.trailing_zeros();
                    return self.shl_c(a, s);
                }
                return self.mk(O::Mul, w, [a, b, 0], 0);
            }
            _ => {}
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(O::Mul, w, [a, b, 0], 0)
    }
    /// (quotient, remainder) of an affine form by a positive constant, when exact
    /// a symbol and split points that bring the quotient of an affine term by a constant closer to being affine
    pub fn divrem_split(&self, n: N, d: i128) -> Option<(u32, Vec<i128>)> {
        if d <= 1 || self.lin_divrem(n, d).is_some() {
            return None;
        }
        let (l, _, _) = self.lin_unsigned(n)?;
        let mut r = Lin { t: vec![], c: l.c.rem_euclid(d) };
        for (s, k) in &l.t {
            let mut kr = k.rem_euclid(d);
            if kr > d / 2 {
                kr -= d;
            }
            if kr != 0 {
                r.t.push((*s, kr));
            }
        }
        let (lo, hi) = self.lin_rng(&r)?;
        if r.t.len() == 1 {
            let (s, k) = r.t[0];
            let mut pts = vec![];
            for m in lo.div_euclid(d) + 1..=hi.div_euclid(d) {
                // first value at which k*s + c crosses m*d
                let x = m * d - r.c;
                pts.push(if k > 0 { (x + k - 1).div_euclid(k) } else { (-x).div_euclid(-k) + 1 });
                if pts.len() > 64 {
                    return None;
                }
            }
            let (a, b) = self.rng[s as usize];
            pts.retain(|p| *p > a && *p <= b);
            pts.sort();
            pts.dedup();
            return if pts.is_empty() { None } else { Some((s, pts)) };
        }
        let (s, _) = *r.t.iter().min_by_key(|t| self.rng[t.0 as usize].1 - self.rng[t.0 as usize].0)?;
        let (a, b) = self.rng[s as usize];
        if b - a > 300 {
            return None;
        }
        Some((s, (a + 1..=b).collect()))
    }
    fn lin_divrem(&self, n: N, d: i128) -> Option<(Lin, Lin)> {
        let (l, _, _) = self.lin_unsigned(n)?;
        let mut q = Lin::default();
        let mut r = Lin { t: vec![], c: l.c.rem_euclid(d) };
        q.c = l.c.div_euclid(d);
        for (s, k) in &l.t {
            let (kq, kr) = (k.div_euclid(d), k.rem_euclid(d));
            if kq != 0 {
                q.t.push((*s, kq));
            }
            if kr != 0 {
                r.t.push((*s, kr));
            }
        }
        let (lo, hi) = self.lin_rng(&r)?;
        let f = lo.div_euclid(d);
        if hi.div_euclid(d) == f {
            r.c -= f * d;
            q.c += f;
            return Some((q, r));
        }
        // try negative remainders (e.g. -1 coefficients)
        let mut q2 = Lin { t: vec![], c: l.c.div_euclid(d) };
        let mut r2 = Lin { t: vec![], c: l.c.rem_euclid(d) };
        for (s, k) in &l.t {
            let (mut kq, mut kr) = (k.div_euclid(d), k.rem_euclid(d));
            if kr > d / 2 {
                kr -= d;
                kq += 1;
            }
            if kq != 0 {
                q2.t.push((*s, kq));
            }
            if kr != 0 {
                r2.t.push((*s, kr));
            }
        }
        let (lo, hi) = self.lin_rng(&r2)?;
        let f = lo.div_euclid(d);
        if hi.div_euclid(d) == f {
            r2.c -= f * d;
            q2.c += f;
            return Some((q2, r2));
        }
        None
    }
    pub fn udiv(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 1 {
                return a;
            }
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.c(w, x / y);
                }
                if y < (1 << 100) {
                    if let Some((q, _)) = self.lin_divrem(a, y as i128) {
                        return self.lin_node(q, w);
                    }
                }
                if y.is_power_of_two() {
                    return self.lshr_c(a, y.trailing_zeros());
                }
            }
        }
        self.mk(O::UDiv, w, [a, b, 0], 0)
    }
    pub fn urem(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 1 {
                return self.c(w, 0);
            }
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.c(w, x % y);
                }
                if y < (1 << 100) {
                    if let Some((_, r)) = self.lin_divrem(a, y as i128) {
                        return self.lin_node(r, w);
                    }
                }
                if y.is_power_of_two() {
                    let k = y.trailing_zeros();
                    let l = self.ext(a, 0, k);
                    return self.zext(l, w);
                }
                let (_, hi) = self.urange(a, 4);
                if hi < y {
                    return a;
                }
            }
        }
        self.mk(O::URem, w, [a, b, 0], 0)
    }
    pub fn sdiv(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.c(w, sext(x, w).wrapping_div(sext(y, w)) as u128);
            }
        }
        let (al, _) = self.srange(a, 4);
        let (bl, _) = self.srange(b, 4);
        if al >= 0 && bl > 0 {
            return self.udiv(a, b);
        }
        if let (Some(l), Some(y)) = (self.as_lin(a), self.cval(b)) {
            // exact division of a possibly negative multiple
            let d = sext(y, w);
            if d > 0 && self.lin_signed(a).is_some() && l.c % d == 0 && l.t.iter().all(|x| x.1 % d == 0) {
                let q = Lin { t: l.t.iter().map(|x| (x.0, x.1 / d)).collect(), c: l.c / d };
                return self.lin_node(q, w);
            }
        }
        self.mk(O::SDiv, w, [a, b, 0], 0)
    }
    pub fn srem(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.c(w, sext(x, w).wrapping_rem(sext(y, w)) as u128);
            }
        }
        let (al, _) = self.srange(a, 4);
        let (bl, _) = self.srange(b, 4);
        if al >= 0 && bl > 0 {
            return self.urem(a, b);
        }
        self.mk(O::SRem, w, [a, b, 0], 0)
    }
    /// bitwise segments view: list (msb first) of nodes
    fn segs(&self, n: N) -> Vec<N> {
        if self.op(n) == O::Cat {
            self.lists[self.nd(n).imm as usize].clone()
        } else {
            vec![n]
        }
    }
    /// split two segment lists at common boundaries
    fn align(&mut self, a: N, b: N) -> Vec<(N, N)> {
        let sa = self.segs(a);
        let sb = self.segs(b);
        let mut out = vec![];
        let (mut i, mut j) = (0, 0);
        let mut ca: Option<N> = None;
        let mut cb: Option<N> = None;
        loop {
            let x = match ca.take() {
                Some(x) => x,
                None => {
                    if i >= sa.len() {
                        break;
                    }
                    i += 1;
                    sa[i - 1]
                }
            };
            let y = match cb.take() {
                Some(y) => y,
                None => {
                    j += 1;
                    sb[j - 1]
                }
            };
            let (wx, wy) = (self.w(x), self.w(y));
            if wx == wy {
                out.push((x, y));
            } else if wx > wy {
                let h = self.ext(x, wx - wy, wy);
                let l = self.ext(x, 0, wx - wy);
                out.push((h, y));
                ca = Some(l);
            } else {
                let h = self.ext(y, wy - wx, wx);
                let l = self.ext(y, 0, wy - wx);
                out.push((x, h));
                cb = Some(l);
            }
        }
        out
    }
    fn merge_disjoint(&mut self, a: N, b: N) -> Option<N> {
        // both operands expressed as segments, at each segment one side is constant zero
        let isc = |s: &Ctx, n: N| s.op(n) == O::Cat || s.op(n) == O::Const;
        if !isc(self, a) && !isc(self, b) {
            return None;
        }
        let al = self.align(a, b);
        let mut out = vec![];
        for (x, y) in al {
            if self.cval(x) == Some(0) {
                out.push(y);
            } else if self.cval(y) == Some(0) {
                out.push(x);
            } else if let (Some(p), Some(q)) = (self.cval(x), self.cval(y)) {
                let w = self.w(x);
                let k = self.c(w, p | q);
                out.push(k);
            } else {
                return None;
            }
        }
        Some(self.cat(out))
    }
    pub fn and(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x & y);
            }
            if y == 0 {
                return b;
            }
            if y == ones(w) {
                return a;
            }
            if self.op(a) == O::Lin {
                if y.wrapping_add(1).is_power_of_two() {
                    let k = self.c(w, y + 1);
                    return self.urem(a, k);
                }
                let inv = ones(w) & !y;
                if inv.wrapping_add(1).is_power_of_two() {
                    let k = self.c(w, inv + 1);
                    let r = self.urem(a, k);
                    return self.sub(a, r);
                }
            }
            // split by runs
            let mut runs = vec![]; // (lo, len, bit)
            let mut i = 0;
            while i < w {
                let bit = (y >> i) & 1;
                let st = i;
                while i < w && (y >> i) & 1 == bit {
                    i += 1;
                }
                runs.push((st, i - st, bit));
            }
            if runs.len() <= 9 {
                let mut segs = vec![];
                for (lo, len, bit) in runs.iter().rev() {
                    let s = if *bit == 1 { self.ext(a, *lo, *len) } else { self.c(*len, 0) };
                    segs.push(s);
                }
                return self.cat(segs);
            }
        }
        // a & ~a handled by sampling-free pattern: xor with ones
        if let Some(r) = self.bitwise_cat(O::And, a, b) {
            return r;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(O::And, w, [a, b, 0], 0)
    }
    /// push And/Xor into Cat when one side has constant (zero) segments; keeps rotations opaque
    fn bitwise_cat(&mut self, o: O, a: N, b: N) -> Option<N> {
        let has0 = |s: &Ctx, n: N| -> bool {
            s.op(n) == O::Cat && s.segs(n).iter().any(|x| s.op(*x) == O::Const)
        };
        if !(has0(self, a) || has0(self, b)) {
            return None;
        }
        // only when both sides are segmentable (avoid splitting opaque values)
        let segable = |s: &Ctx, n: N| matches!(s.op(n), O::Cat | O::Const);
        if o != O::And && !(segable(self, a) && segable(self, b)) {
            return None;
        }
        if o == O::And && !(segable(self, a) && segable(self, b)) {
            return None;
        }
        let al = self.align(a, b);
        let mut out = vec![];
        for (x, y) in al {
            let r = match o {
                O::And => self.and(x, y),
                O::Or => self.or(x, y),
                _ => self.xor(x, y),
            };
            out.push(r);
        }
        Some(self.cat(out))
    }
    pub fn or(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return a;
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x | y);
            }
            if y == 0 {
                return a;
            }
            if y == ones(w) {
                return b;
            }
        }
        let full = ones(w);
        if (full & !self.kz[a as usize]) & (full & !self.kz[b as usize]) == 0 {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
        }
        if let Some(r) = self.bitwise_cat(O::Or, a, b) {
            return r;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(O::Or, w, [a, b, 0], 0)
    }
    pub fn xor(&mut self, a: N, b: N) -> N {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if a == b {
            return self.c(w, 0);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.c(w, x ^ y);
            }
            if y == 0 {
                return a;
            }
            let nd = self.nd(a).clone();
            if nd.o == O::Xor {
                if let Some(c1) = self.cval(nd.a[1]) {
                    let k = self.c(w, c1 ^ y);
                    return self.xor(nd.a[0], k);
                }
            }
            if let Some(r) = self.bitwise_cat(O::Xor, a, b) {
                return r;
            }
            return self.mk(O::Xor, w, [a, b, 0], 0);
        }
        let full = ones(w);
        if (full & !self.kz[a as usize]) & (full & !self.kz[b as usize]) == 0 {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
        }
        if let Some(r) = self.bitwise_cat(O::Xor, a, b) {
            return r;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(O::Xor, w, [a, b, 0], 0)
    }
    pub fn not(&mut self, a: N) -> N {
        let w = self.w(a);
        let k = self.c(w, ones(w));
        self.xor(a, k)
    }
    pub fn shl_c(&mut self, a: N, s: u32) -> N {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(w, 0);
        }
        if let Some(l) = self.as_lin(a) {
            if s < 120 {
                let l2 = Self::lin_add(&Lin::default(), &l, 1i128 << s);
                return self.lin_node(l2, w);
            }
        }
        let h = self.ext(a, 0, w - s);
        let z = self.c(s, 0);
        self.cat(vec![h, z])
    }
    pub fn lshr_c(&mut self, a: N, s: u32) -> N {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(w, 0);
        }
        if self.op(a) == O::Lin && s < 100 {
            if let Some((q, _)) = self.lin_divrem(a, 1i128 << s) {
                return self.lin_node(q, w);
            }
        }
        let l = self.ext(a, s, w - s);
        self.zext(l, w)
    }
    pub fn ashr_c(&mut self, a: N, s: u32) -> N {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        let (lo, _) = self.srange(a, 4);
        if lo >= 0 {
            return self.lshr_c(a, s);
        }
        if let Some(x) = self.cval(a) {
            return self.c(w, (sext(x, w) >> s.min(127)) as u128);
        }
        let k = self.c(w, s as u128);
        self.mk(O::AShr, w, [a, k, 0], 0)
    }
    pub fn shl(&mut self, a: N, b: N) -> N {
        match self.cval(b) {
            Some(s) => self.shl_c(a, s.min(200) as u32),
            None => {
                let w = self.w(a);
                self.mk(O::Shl, w, [a, b, 0], 0)
            }
        }
    }
    pub fn lshr(&mut self, a: N, b: N) -> N {
        match self.cval(b) {
            Some(s) => self.lshr_c(a, s.min(200) as u32),
            None => {
                let w = self.w(a);
                self.mk(O::LShr, w, [a, b, 0], 0)
            }
        }
    }
    pub fn ashr(&mut self, a: N, b: N) -> N {
        match self.cval(b) {
            Some(s) => {
                let w = self.w(a);
                self.ashr_c(a, s.min(w as u128 - 1) as u32)
            }
            None => {
                let w = self.w(a);
                self.mk(O::AShr, w, [a, b, 0], 0)
            }
        }
    }
    pub fn rotl(&mut self, a: N, s: u32) -> N {
        let w = self.w(a);
        let s = s % w;
        if s == 0 {
            return a;
        }
        let h = self.ext(a, 0, w - s);
        let l = self.ext(a, w - s, s);
        self.cat(vec![h, l])
    }
    pub fn rotr(&mut self, a: N, s: u32) -> N {
        let w = self.w(a);
        self.rotl(a, (w - s % w) % w)
    }
    pub fn zext(&mut self, a: N, w: u32) -> N {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if self.op(a) == O::Lin {
            if let Some((l, _, _)) = self.lin_unsigned(a) {
                return self.lin_node(l, w);
            }
        }
        let z = self.c(w - aw, 0);
        self.cat(vec![z, a])
    }
    pub fn sext(&mut self, a: N, w: u32) -> N {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.cval(a) {
            return self.c(w, sext(x, aw) as u128);
        }
        if self.op(a) == O::Lin {
            if let Some((l, _, _)) = self.lin_signed(a) {
                return self.lin_node(l, w);
            }
        }
        let (lo, _) = self.srange(a, 4);
        if lo >= 0 {
            return self.zext(a, w);
        }
        let z = self.c(w - aw, 0);
        let c = self.cat(vec![z, a]);
        let k = w - aw;
        let s = self.shl_c(c, k);
        let kk = self.c(w, k as u128);
        if let Some(x) = self.cval(s) {
            return self.c(w, (sext(x, w) >> k) as u128);
        }
        self.mk(O::AShr, w, [s, kk, 0], 0)
    }
    pub fn trunc(&mut self, a: N, w: u32) -> N {
        self.ext(a, 0, w)
    }
    pub fn ext(&mut self, a: N, lo: u32, w: u32) -> N {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "ext {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        let nd = self.nd(a).clone();
        match nd.o {
            O::Const => return self.c(w, nd.imm >> lo),
            O::Undef => return self.undef(w),
            O::Lin => {
                let mut l = self.as_lin(a).unwrap();
                if lo == 0 {
                    return self.lin_node(l, w);
                }
                // bits below the common power of two of the coefficients come from the constant alone
                let (j, jl) = Self::lin_shift(&mut l);
                if lo < j {
                    if lo + w <= j {
                        return self.c(w, (jl as u128) >> lo);
                    }
                    let low = self.c(j - lo, (jl >> lo) as u128);
                    let hi = self.lin_node(l, lo + w - j);
                    return self.cat(vec![hi, low]);
                }
                let lo = lo - j;
                let t = self.lin_node(l, lo + w);
                if lo == 0 {
                    return t;
                }
                if let Some(x) = self.cval(t) {
                    return self.c(w, x >> lo);
                }
                if let Some((_, _, hi)) = self.lin_unsigned(t) {
                    if hi < (1i128 << lo) {
                        return self.c(w, 0);
                    }
                }
                return self.mk(O::Ext, w, [t, 0, 0], lo as u128);
            }
            O::Ext => return self.ext(nd.a[0], lo + nd.imm as u32, w),
            O::Cat => {
                let l = self.lists[nd.imm as usize].clone();
                let mut out = vec![];
                let mut pos = aw;
                for x in l {
                    let xw = self.w(x);
                    let top = pos;
                    pos -= xw;
                    // x covers bits [pos, top)
                    let l2 = pos.max(lo);
                    let h2 = top.min(lo + w);
                    if l2 < h2 {
                        let e = self.ext(x, l2 - pos, h2 - l2);
                        out.push(e);
                    }
                }
                return self.cat(out);
            }
            O::And | O::Or | O::Xor => {
                // narrow when one side is a segment list (so the result simplifies)
                let s = |c: &Ctx, n: N| matches!(c.op(n), O::Cat | O::Const);
                if (s(self, nd.a[0]) && self.cval(nd.a[0]).is_none()) && s(self, nd.a[1]) {
                    let x = self.ext(nd.a[0], lo, w);
                    let y = self.ext(nd.a[1], lo, w);
                    return match nd.o {
                        O::And => self.and(x, y),
                        O::Or => self.or(x, y),
                        _ => self.xor(x, y),
                    };
                }
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                // low bits of arithmetic over zero-extended operands
                let s = |c: &Ctx, n: N| -> bool {
                    match c.op(n) {
                        O::Const => true,
                        O::Cat => {
                            let l = &c.lists[c.nd(n).imm as usize];
                            c.w(*l.last().unwrap()) >= w
                        }
                        O::Lin => true,
                        O::Add | O::Sub | O::Mul => false,
                        _ => false,
                    }
                };
                if s(self, nd.a[0]) && s(self, nd.a[1]) {
                    let x = self.ext(nd.a[0], 0, w);
                    let y = self.ext(nd.a[1], 0, w);
                    return match nd.o {
                        O::Add => self.add(x, y),
                        O::Sub => self.sub(x, y),
                        _ => self.mul(x, y),
                    };
                }
            }
            O::AShr if lo == 0 => {
                // trunc(sext(x)) = x : AShr(Cat(x, 0_k), k)
                if let Some(k) = self.cval(nd.a[1]) {
                    let k = k as u32;
                    if k + w <= aw {
                        return self.ext(nd.a[0], k, w);
                    }
                }
            }
            O::Ite => {
                if self.cval(nd.a[1]).is_some() || self.cval(nd.a[2]).is_some() || self.op(nd.a[1]) == O::Cat {
                    let x = self.ext(nd.a[1], lo, w);
                    let y = self.ext(nd.a[2], lo, w);
                    return self.ite(nd.a[0], x, y);
                }
            }
            _ => {}
        }
        // known zero slice
        if mask(self.kz[a as usize] >> lo, w) == ones(w) {
            return self.c(w, 0);
        }
        self.mk(O::Ext, w, [a, 0, 0], lo as u128)
    }
    pub fn cat(&mut self, l: Vec<N>) -> N {
        let mut out: Vec<N> = vec![];
        let mut todo: Vec<N> = l;
        let mut i = 0;
        while i < todo.len() {
            let x = todo[i];
            i += 1;
            if self.op(x) == O::Cat {
                let inner = self.lists[self.nd(x).imm as usize].clone();
                let rest = todo.split_off(i);
                todo = inner;
                todo.extend(rest);
                i = 0;
                continue;
            }
            if let Some(&p) = out.last() {
                if let Some(m) = self.cat2(p, x) {
                    out.pop();
                    // merging may enable further merges
                    let mut m = m;
                    while let Some(&pp) = out.last() {
                        match self.cat2(pp, m) {
                            Some(mm) => {
                                out.pop();
                                m = mm;
                            }
                            None => break,
                        }
                    }
                    if self.op(m) == O::Cat {
                        let inner = self.lists[self.nd(m).imm as usize].clone();
                        out.extend(inner);
                    } else {
                        out.push(m);
                    }
                    continue;
                }
            }
            out.push(x);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w: u32 = out.iter().map(|x| self.w(*x)).sum();
        if w > 128 {
            panic!("cat wider than 128 bits");
        }
        let id = self.list(out);
        self.mk(O::Cat, w, [0; 3], id as u128)
    }
    fn cat2(&mut self, h: N, l: N) -> Option<N> {
        let (a, b) = (self.nd(h).clone(), self.nd(l).clone());
        if a.o == O::Const && b.o == O::Const {
            return Some(self.c(a.w + b.w, if b.w >= 128 { 0 } else { a.imm << b.w } | b.imm));
        }
        if a.o == O::Undef && b.o == O::Undef {
            return Some(self.undef(a.w + b.w));
        }
        if a.o == O::Ext && b.o == O::Ext && a.a[0] == b.a[0] && a.imm == b.imm + b.w as u128 {
            return Some(self.ext(a.a[0], b.imm as u32, a.w + b.w));
        }
        if a.o == O::Lin && b.o == O::Const {
            let mut x = self.as_lin(h).unwrap();
            for t in x.t.iter_mut() {
                t.1 = t.1.wrapping_shl(b.w);
            }
            x.c = x.c.wrapping_shl(b.w).wrapping_add(b.imm as i128);
            return Some(self.lin_node(x, a.w + b.w));
        }
        if a.o == O::Ext && self.op(a.a[0]) == O::Lin {
            // Ext of a truncated affine form followed by lower bits of the same form
            let x = a.a[0];
            if b.o == O::Lin && a.imm == b.w as u128 {
                let l = self.as_lin(x).unwrap();
                if self.lin_node(l, b.w) == self.norm_of(&b) {
                    return Some(x);
                }
            }
            if b.o == O::Ext && self.op(b.a[0]) == O::Lin && a.imm == b.imm + b.w as u128 {
                let l = self.as_lin(x).unwrap();
                let yw = self.w(b.a[0]);
                if self.lin_node(l, yw) == b.a[0] {
                    return Some(self.ext(x, b.imm as u32, a.w + b.w));
                }
            }
        }
        None
    }
    /// factor the common power of two out of an affine form: l = 2^j * l' + low
    pub fn lin_shift(l: &mut Lin) -> (u32, i128) {
        let j = l.t.iter().map(|x| x.1.trailing_zeros()).min().unwrap_or(0).min(120);
        let low = l.c & ((1i128 << j) - 1);
        l.c = (l.c - low) >> j;
        for t in l.t.iter_mut() {
            t.1 >>= j;
        }
        (j, low)
    }
    fn norm_of(&mut self, nd: &Node) -> N {
        let l = self.lins[nd.imm as usize].clone();
        self.lin_node(l, nd.w)
    }
    pub fn eq(&mut self, a: N, b: N) -> N {
        if a == b {
            return self.c(1, 1);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(1, (x == y) as u128);
        }
        let w = self.w(a);
        if self.op(a) == O::Ptr || self.op(b) == O::Ptr {
            return self.mk(O::Eq, 1, [a.min(b), a.max(b), 0], 0);
        }
        if let (Some(x), Some(y)) = (self.as_lin(a), self.as_lin(b)) {
            let d = Self::lin_add(&x, &y, -1);
            // exact reasoning only if the difference interval stays within one modulus
            if let Some((lo, hi)) = self.lin_rng(&d) {
                let m = if w >= 127 { i128::MAX } else { 1i128 << w };
                if lo > -m && hi < m {
                    if lo == 0 && hi == 0 {
                        return self.c(1, 1);
                    }
                    if lo > 0 || hi < 0 {
                        return self.c(1, 0);
                    }
                    // gcd test
                    let g = d.t.iter().fold(0i128, |a, b| gcd(a, b.1.abs()));
                    if g > 1 && d.c % g != 0 {
                        return self.c(1, 0);
                    }
                }
            }
        } else {
            let (a0, a1) = self.urange(a, 4);
            let (b0, b1) = self.urange(b, 4);
            if a1 < b0 || b1 < a0 {
                return self.c(1, 0);
            }
        }
        // the upper part of a size being zero is a bound on the size
        for (p, q) in [(a, b), (b, a)] {
            if self.cval(p) != Some(0) {
                continue;
            }
            let mut x = q;
            if self.op(x) == O::Cat {
                let l = &self.lists[self.nd(x).imm as usize];
                if l.len() == 2 && self.cval(l[0]) == Some(0) {
                    x = l[1];
                }
            }
            let nd = self.nd(x).clone();
            if nd.o == O::Ext && self.op(nd.a[0]) == O::Lin && nd.imm as u32 + nd.w == self.w(nd.a[0]) {
                let bw = self.w(nd.a[0]);
                let k = self.c(bw, 1u128 << nd.imm as u32);
                return self.ult(nd.a[0], k);
            }
        }
        if w == 1 {
            // boolean equality
            let x = self.xor(a, b);
            return self.not(x);
        }
        // zext(x) == const
        let (p, q) = (a.min(b), a.max(b));
        self.mk(O::Eq, 1, [p, q, 0], 0)
    }
    pub fn ult(&mut self, a: N, b: N) -> N {
        if a == b {
            return self.c(1, 0);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(1, (x < y) as u128);
        }
        if let (Some((x, _, _)), Some((y, _, _))) = (self.lin_unsigned(a), self.lin_unsigned(b)) {
            let d = Self::lin_add(&x, &y, -1);
            if let Some((lo, hi)) = self.lin_rng(&d) {
                if hi < 0 {
                    return self.c(1, 1);
                }
                if lo >= 0 {
                    return self.c(1, 0);
                }
            }
        } else {
            let (a0, a1) = self.urange(a, 4);
            let (b0, b1) = self.urange(b, 4);
            if a1 < b0 {
                return self.c(1, 1);
            }
            if a0 >= b1 {
                return self.c(1, 0);
            }
        }
        self.mk(O::Ult, 1, [a, b, 0], 0)
    }
    pub fn slt(&mut self, a: N, b: N) -> N {
        if a == b {
            return self.c(1, 0);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(1, (sext(x, w) < sext(y, w)) as u128);
        }
        if let (Some((x, _, _)), Some((y, _, _))) = (self.lin_signed(a), self.lin_signed(b)) {
            let d = Self::lin_add(&x, &y, -1);
            if let Some((lo, hi)) = self.lin_rng(&d) {
                if hi < 0 {
                    return self.c(1, 1);
                }
                if lo >= 0 {
                    return self.c(1, 0);
                }
            }
        } else {
            let (a0, a1) = self.srange(a, 4);
            let (b0, b1) = self.srange(b, 4);
            if a1 < b0 {
                return self.c(1, 1);
            }
            if a0 >= b1 {
                return self.c(1, 0);
            }
        }
        self.mk(O::Slt, 1, [a, b, 0], 0)
    }
    pub fn ite(&mut self, c: N, a: N, b: N) -> N {
        if a == b {
            return a;
        }
        match self.cval(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        // ite(!c, a, b) = ite(c, b, a)
        let nd = self.nd(c).clone();
        if nd.o == O::Ult {
            if let Some(r) = self.carry(&nd, a, b) {
                return r;
            }
        }
        if nd.o == O::Xor && self.cval(nd.a[1]) == Some(1) {
            return self.ite(nd.a[0], b, a);
        }
        self.mk(O::Ite, w, [c, a, b], 0)
    }
    /// carry into the upper word of a double-word counter: with x = y + d, 0 <= d < 2^w,
    /// floor(x / 2^w) = floor(y / 2^w) + [x mod 2^w < y mod 2^w] = floor(y / 2^w) + [x mod 2^w < d]
    fn carry(&mut self, cond: &Node, t: N, e: N) -> Option<N> {
        let w = self.w(e);
        if self.w(cond.a[0]) != w || w > 64 || w < 8 {
            return None;
        }
        let la = self.as_lin(cond.a[0])?;
        let lb = self.as_lin(cond.a[1])?;
        let one = self.c(w, 1);
        if self.add(e, one) != t {
            return None;
        }
        let top = 1i128 << w;
        let within = |c: &Ctx, l: &Lin| c.lin_rng(l).map_or(false, |r| r.0 >= 0 && r.1 < top);
        let d = Ctx::lin_add(&la, &lb, -1);
        let y = if within(self, &d) {
            lb
        } else if within(self, &lb) {
            d
        } else {
            return None;
        };
        let f = self.lin_node(y, 2 * w);
        if self.ext(f, w, w) != e {
            return None;
        }
        let f = self.lin_node(la, 2 * w);
        Some(self.ext(f, w, w))
    }
    pub fn inb(&mut self, region: u32, off: N) -> N {
        let off = self.norm(off);
        self.mk(O::InB, 8, [off, 0, 0], region as u128)
    }
    pub fn tab(&mut self, t: u32, idx: N) -> N {
        let (iw, w) = {
            let tb = &self.tables[t as usize];
            (tb.iw, tb.w)
        };
        debug_assert_eq!(self.w(idx), iw);
        if let Some(i) = self.cval(idx) {
            let v = self.tables[t as usize].v[i as usize];
            return self.c(w, v);
        }
        self.mk(O::Tab, w, [idx, 0, 0], t as u128)
    }
    pub fn ptr(&mut self, obj: u32, off: N) -> N {
        let w = self.ptr_bits;
        let off = self.norm(off);
        self.mk(O::Ptr, w, [off, 0, 0], obj as u128)
    }
    pub fn agg(&mut self, v: Vec<N>) -> N {
        let id = self.list(v);
        self.mk(O::Agg, 0, [0; 3], id as u128)
    }
    /// substitute affine symbols (sym -> affine form) throughout a term
    pub fn subst(&mut self, n: N, s: &HashMap<u32, Lin>, memo: &mut FxMap<N, N>) -> N {
        let mask = s.keys().fold(0u64, |a, k| a | 1 << (k % 64));
        self.subst_m(n, s, memo, mask)
    }
    /// `mask`: symbol signature of everything the substitution can change (including nodes pre-seeded in `memo`)
    pub fn subst_m(&mut self, n: N, s: &HashMap<u32, Lin>, memo: &mut FxMap<N, N>, mask: u64) -> N {
        if self.sym_sig[n as usize] & mask == 0 {
            return n;
        }
        if let Some(r) = memo.get(&n) {
            return *r;
        }
        let nd = self.nd(n).clone();
        let r = match nd.o {
            O::Const | O::Undef | O::F64 | O::Fn | O::Sym => n,
            O::Lin => {
                let l = self.lins[nd.imm as usize].clone();
                if l.t.iter().any(|x| s.contains_key(&x.0)) {
                    let mut r = Lin { t: vec![], c: l.c };
                    for (sy, k) in &l.t {
                        let e = match s.get(sy) {
                            Some(e) => e.clone(),
                            None => Lin { t: vec![(*sy, 1)], c: 0 },
                        };
                        r = Self::lin_add(&r, &e, *k);
                    }
                    self.lin_node(r, nd.w)
                } else {
                    n
                }
            }
            _ => {
                let a = self.args(n);
                let b: Vec<N> = a.iter().map(|x| self.subst_m(*x, s, memo, mask)).collect();
                if a == b {
                    n
                } else {
                    self.rebuild(&nd, &b)
                }
            }
        };
        memo.insert(n, r);
        r
    }
    pub fn rebuild(&mut self, nd: &Node, b: &[N]) -> N {
        match nd.o {
            O::Add => self.add(b[0], b[1]),
            O::Sub => self.sub(b[0], b[1]),
            O::Mul => self.mul(b[0], b[1]),
            O::UDiv => self.udiv(b[0], b[1]),
            O::URem => self.urem(b[0], b[1]),
            O::SDiv => self.sdiv(b[0], b[1]),
            O::SRem => self.srem(b[0], b[1]),
            O::And => self.and(b[0], b[1]),
            O::Or => self.or(b[0], b[1]),
            O::Xor => self.xor(b[0], b[1]),
            O::Shl => self.shl(b[0], b[1]),
            O::LShr => self.lshr(b[0], b[1]),
            O::AShr => self.ashr(b[0], b[1]),
            O::Eq => self.eq(b[0], b[1]),
            O::Ult => self.ult(b[0], b[1]),
            O::Slt => self.slt(b[0], b[1]),
            O::Ite => self.ite(b[0], b[1], b[2]),
            O::Cat => self.cat(b.to_vec()),
            O::Agg => self.agg(b.to_vec()),
            O::App => {
                let id = self.list(b.to_vec());
                self.mk(O::App, nd.w, nd.a, id as u128)
            }
            O::Ext => self.ext(b[0], nd.imm as u32, nd.w),
            O::Tab => self.tab(nd.imm as u32, b[0]),
            O::Ptr => self.ptr(nd.imm as u32, b[0]),
            O::InB => self.inb(nd.imm as u32, b[0]),
            _ => unreachable!(),
        }
    }
    /// does the term mention a havoc'd / undefined value?
    pub fn tainted(&self, n: N) -> bool {
        let mut seen = HashSet::default();
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let nd = self.nd(x);
            match nd.o {
                O::Undef => return true,
                O::Sym => {
                    if self.bsyms[nd.imm as usize].havoc {
                        return true;
                    }
                }
                _ => st.extend(self.args(x)),
            }
        }
        false
    }
    /// debugging aid: descend where two terms have the same operator to the first place where they differ
    pub fn first_diff(&self, a: N, b: N) -> (N, N) {
        let (x, y) = (self.nd(a), self.nd(b));
        if x.o == y.o && x.w == y.w {
            let (p, q) = (self.args(a), self.args(b));
            if p.len() == q.len() {
                let d: Vec<usize> = (0..p.len()).filter(|i| p[*i] != q[*i]).collect();
                if d.len() == 1 {
                    return self.first_diff(p[d[0]], q[d[0]]);
                }
                if d.len() == 2 && p[d[0]] == q[d[1]] {
                    return self.first_diff(p[d[1]], q[d[0]]);
                }
                if d.len() == 2 && p[d[1]] == q[d[0]] {
                    return self.first_diff(p[d[0]], q[d[1]]);
                }
                for i in d {
                    if self.smp[p[i] as usize] == self.smp[q[i] as usize] {
                        return self.first_diff(p[i], q[i]);
                    }
                }
            }
        }
        (a, b)
    }
    pub fn show(&self, n: N, d: u32) -> String {
        let nd = self.nd(n);
        match nd.o {
            O::Const => format!("0x{:x}:{}", nd.imm, nd.w),
            O::Undef => "undef".into(),
            O::Sym => self.bsyms[nd.imm as usize].name.clone(),
            O::Lin => {
                let l = &self.lins[nd.imm as usize];
                let mut s = String::new();
                for (y, k) in &l.t {
                    s += &format!("{}*{}+", k, self.asyms[*y as usize].name);
                }
                format!("({}{}):{}", s, l.c, nd.w)
            }
            O::Ptr => format!("&obj{}+{}", nd.imm, self.show(nd.a[0], d)),
            O::InB => format!("in{}[{}]", nd.imm, self.show(nd.a[0], d)),
            _ => {
                if d == 0 {
                    return format!("#{}", n);
                }
                let a: Vec<String> = self.args(n).iter().map(|x| self.show(*x, d - 1)).collect();
                let x = match nd.o {
                    O::Ext => format!("[{}+{}]", nd.imm, nd.w),
                    O::Tab => format!("{}", nd.imm),
                    _ => String::new(),
                };
                format!("{:?}{}({})", nd.o, x, a.join(","))
            }
        }
    }
}

pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
