//! Discharging term equalities: structural identity, GF(2) algebraic normal form, linear arithmetic
//! modulo 2^w, exhaustive enumeration of small cones, congruence, and an SMT back end (z3 / cvc5).
use crate::ir::mask;
use crate::term::*;
use crate::term::{HashMap, HashSet};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Proved,
    Refuted, // the two terms differ on a sample assignment
    Unknown,
}

type Poly = Vec<u128>; // monomials: packed 16-bit variable ids (0 = none), sorted descending inside; sorted list

const MAXMONO: usize = 768;

struct Anf<'a> {
    c: &'a Ctx,
    leaves: HashMap<N, u32>, // first variable id of the leaf (bit 0)
    lins: HashMap<Lin, u32>,
    next: u32,
    allow: &'a HashSet<N>, // leaf set
    memo: HashMap<(N, u32), Option<Poly>>,
    budget: usize,
}

/// width-independent view of an affine form: (odd part, shift, low constant bits)
fn lin_canon(c: &Ctx, n: N) -> Option<(Lin, u32, u128)> {
    if c.op(n) != O::Lin {
        return None;
    }
    let mut l = c.lins[c.nd(n).imm as usize].clone();
    let (j, low) = Ctx::lin_shift(&mut l);
    Some((l, j, low as u128))
}
fn padd(a: &Poly, b: &Poly) -> Poly {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            r.push(b[j]);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    r
}
fn mmul(a: u128, b: u128) -> Option<u128> {
    let mut v: Vec<u16> = vec![];
    for k in 0..8 {
        let x = (a >> (16 * k)) as u16;
        if x != 0 {
            v.push(x);
        }
        let y = (b >> (16 * k)) as u16;
        if y != 0 {
            v.push(y);
        }
    }
    v.sort();
    v.dedup();
    if v.len() > 8 {
        return None;
    }
    let mut r = 0u128;
    for (i, x) in v.iter().enumerate() {
        r |= (*x as u128) << (16 * i);
    }
    Some(r)
}
fn pmul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.is_empty() || b.is_empty() {
        return Some(vec![]);
    }
    if a.len() * b.len() > 4 * MAXMONO {
        return None;
    }
    let mut r: Vec<u128> = vec![];
    for x in a {
        for y in b {
            r.push(mmul(*x, *y)?);
        }
    }
    r.sort();
    let mut o: Vec<u128> = vec![];
    let mut i = 0;
    while i < r.len() {
        let mut j = i;
        while j < r.len() && r[j] == r[i] {
            j += 1;
        }
        if (j - i) % 2 == 1 {
            o.push(r[i]);
        }
        i = j;
    }
    if o.len() > MAXMONO {
        return None;
    }
    Some(o)
}

impl<'a> Anf<'a> {
    fn var(&mut self, n: N, bit: u32) -> Option<Poly> {
        let w = self.c.w(n);
        if let Some((l, j, low)) = lin_canon(self.c, n) {
            // affine forms of different widths and scales share their bits
            if bit < j {
                return Some(if (low >> bit) & 1 == 1 { vec![0] } else { vec![] });
            }
            let base = match self.lins.get(&l) {
                Some(b) => *b,
                None => {
                    let b = self.next;
                    self.next += 128;
                    self.lins.insert(l, b);
                    b
                }
            };
            let v = base + bit - j;
            return if v >= 65535 { None } else { Some(vec![(v + 1) as u128]) };
        }
        let base = match self.leaves.get(&n) {
            Some(b) => *b,
            None => {
                let b = self.next;
                self.next += w;
                self.leaves.insert(n, b);
                b
            }
        };
        let v = base + bit;
        if v >= 65535 {
            return None;
        }
        Some(vec![(v + 1) as u128])
    }
    fn bit(&mut self, n: N, b: u32) -> Option<Poly> {
        if let Some(r) = self.memo.get(&(n, b)) {
            return r.clone();
        }
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        let r = self.bit0(n, b);
        self.memo.insert((n, b), r.clone());
        r
    }
    fn bit0(&mut self, n: N, b: u32) -> Option<Poly> {
        if self.allow.contains(&n) {
            return self.var(n, b);
        }
        if (self.c.kz[n as usize] >> b) & 1 == 1 {
            return Some(vec![]);
        }
        let nd = self.c.nd(n).clone();
        match nd.o {
            O::Lin => self.var(n, b),
            O::Const => Some(if (nd.imm >> b) & 1 == 1 { vec![0] } else { vec![] }),
            O::Xor => {
                let x = self.bit(nd.a[0], b)?;
                let y = self.bit(nd.a[1], b)?;
                let r = padd(&x, &y);
                if r.len() > MAXMONO { None } else { Some(r) }
            }
            O::And => {
                let x = self.bit(nd.a[0], b)?;
                let y = self.bit(nd.a[1], b)?;
                pmul(&x, &y)
            }
            O::Or => {
                let x = self.bit(nd.a[0], b)?;
                let y = self.bit(nd.a[1], b)?;
                let p = pmul(&x, &y)?;
                Some(padd(&padd(&x, &y), &p))
            }
            O::Ite => {
                let c = self.bit(nd.a[0], 0)?;
                let x = self.bit(nd.a[1], b)?;
                let y = self.bit(nd.a[2], b)?;
                let d = padd(&x, &y);
                let m = pmul(&c, &d)?;
                Some(padd(&m, &y))
            }
            O::Cat => {
                let l = self.c.args(n);
                let mut pos = nd.w;
                for x in l {
                    let xw = self.c.w(x);
                    pos -= xw;
                    if b >= pos {
                        return self.bit(x, b - pos);
                    }
                }
                None
            }
            O::Ext => self.bit(nd.a[0], b + nd.imm as u32),
            O::AShr => {
                let k = self.c.cval(nd.a[1])? as u32;
                let i = (b + k).min(nd.w - 1);
                self.bit(nd.a[0], i)
            }
            O::Tab => {
                let t = &self.c.tables[nd.imm as usize];
                if !t.linear {
                    return None;
                }
                let iw = t.iw;
                let t0 = t.v[0];
                let cols: Vec<bool> = (0..iw).map(|i| ((t.v[1usize << i] ^ t0) >> b) & 1 == 1).collect();
                let mut r: Poly = if (t0 >> b) & 1 == 1 { vec![0] } else { vec![] };
                for i in 0..iw {
                    if cols[i as usize] {
                        let x = self.bit(nd.a[0], i)?;
                        r = padd(&r, &x);
                    }
                }
                if r.len() > MAXMONO { None } else { Some(r) }
            }
            O::Eq if self.c.w(nd.a[0]) <= 4 => {
                let w = self.c.w(nd.a[0]);
                let mut r: Poly = vec![0];
                for i in 0..w {
                    let x = self.bit(nd.a[0], i)?;
                    let y = self.bit(nd.a[1], i)?;
                    let d = padd(&padd(&x, &y), &vec![0]);
                    r = pmul(&r, &d)?;
                }
                Some(r)
            }
            _ => None,
        }
    }
}

fn dbg() -> bool {
    std::env::var("IRV_CUT").is_ok()
}

impl Ctx {
    /// prove code node i equal to spec node c (both already share samples)
    pub fn prove_rewrite(&mut self, i: N, c: N) -> bool {
        if let Some(r) = self.tried.get(&(i, c)) {
            return *r;
        }
        if self.late() {
            return false;
        }
        self.in_proof = true;
        let t0 = Instant::now();
        let r = self.prove_local(i, c, 0);
        self.stats.prover_ms += t0.elapsed().as_micros() as u64;
        self.in_proof = false;
        self.tried.insert((i, c), r);
        if !r {
            self.stats.failed += 1;
            self.failed_pairs.push((i, c));
        }
        r
    }
    fn is_leafish(&self, n: N) -> bool {
        matches!(self.op(n), O::Sym | O::InB | O::Lin | O::Undef | O::Ptr | O::Fn | O::F64 | O::App)
    }
    /// build a cut: leaves shared by both cones
    fn cut(&self, i: N, c: N, lift: usize) -> Option<HashSet<N>> {
        // expand i through non-spec nodes
        let mut leaves: HashSet<N> = HashSet::default();
        let mut seen: HashSet<N> = HashSet::default();
        let mut st = vec![(i, true)];
        let mut cnt = 0;
        while let Some((x, top)) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            cnt += 1;
            if cnt > 2000 {
                return None;
            }
            if self.op(x) == O::Const {
                continue;
            }
            if (self.spec[x as usize] && !top && !self.wiring(x)) || self.is_leafish(x) {
                leaves.insert(x);
                continue;
            }
            for a in self.args(x) {
                st.push((a, false));
            }
        }
        let mut lifts = lift;
        loop {
            // expand c down to the leaves
            let mut seen: HashSet<N> = HashSet::default();
            let mut st = vec![c];
            let mut bad: Vec<N> = vec![];
            let mut cnt = 0;
            let mut over = false;
            while let Some(x) = st.pop() {
                if !seen.insert(x) || leaves.contains(&x) && x != c || self.op(x) == O::Const {
                    continue;
                }
                cnt += 1;
                if cnt > 600 {
                    over = true;
                    break;
                }
                if self.is_leafish(x) {
                    if let Some((l, _, _)) = lin_canon(self, x) {
                        if leaves.iter().any(|y| lin_canon(self, *y).map_or(false, |z| z.0 == l)) {
                            continue;
                        }
                    }
                    bad.push(x);
                    continue;
                }
                for a in self.args(x) {
                    st.push(a);
                }
            }
            if !over && bad.is_empty() {
                leaves.remove(&c);
                leaves.remove(&i);
                return Some(leaves);
            }
            if lifts == 0 {
                return None;
            }
            lifts -= 1;
            // the leaf set is too high somewhere: expand the highest non-atomic leaf
            let h = leaves.iter().cloned().filter(|x| !self.is_leafish(*x)).max()?;
            leaves.remove(&h);
            for a in self.args(h) {
                if self.op(a) != O::Const {
                    leaves.insert(a);
                }
            }
        }
    }
    /// pure wiring nodes (rotations, byte selections) are expanded rather than used as leaves
    fn wiring(&self, n: N) -> bool {
        // (as are fragments of words left behind by segment-wise simplification)
        matches!(self.op(n), O::Cat | O::Ext) || !matches!(self.w(n), 1 | 8 | 16 | 32 | 64 | 128) && matches!(self.op(n), O::Xor | O::And | O::Or)
    }
    fn prove_local(&mut self, i: N, c: N, depth: u32) -> bool {
        if i == c {
            return true;
        }
        if self.w(i) != self.w(c) || self.smp[i as usize] != self.smp[c as usize] {
            return false;
        }
        if let Some(r) = self.tried.get(&(i, c)) {
            return *r;
        }
        // congruence
        let (ni, nc) = (self.nd(i).clone(), self.nd(c).clone());
        if ni.o == nc.o && depth < 6 {
            let ok = match ni.o {
                O::Ext => ni.imm == nc.imm && self.prove_local(ni.a[0], nc.a[0], depth + 1),
                O::Tab => ni.imm == nc.imm && self.prove_local(ni.a[0], nc.a[0], depth + 1),
                O::Cat => {
                    let (la, lb) = (self.args(i), self.args(c));
                    la.len() == lb.len() && la.iter().zip(lb.iter()).all(|(x, y)| self.w(*x) == self.w(*y) && self.smp[*x as usize] == self.smp[*y as usize]) && la.iter().zip(lb.iter()).all(|(x, y)| self.prove_local(*x, *y, depth + 1))
                }
                O::Add | O::Xor | O::And | O::Or | O::Mul => {
                    let s = |c: &Ctx, x: N, y: N| c.w(x) == c.w(y) && c.smp[x as usize] == c.smp[y as usize];
                    if s(self, ni.a[0], nc.a[0]) && s(self, ni.a[1], nc.a[1]) {
                        self.prove_local(ni.a[0], nc.a[0], depth + 1) && self.prove_local(ni.a[1], nc.a[1], depth + 1)
                    } else if s(self, ni.a[0], nc.a[1]) && s(self, ni.a[1], nc.a[0]) {
                        self.prove_local(ni.a[0], nc.a[1], depth + 1) && self.prove_local(ni.a[1], nc.a[0], depth + 1)
                    } else {
                        false
                    }
                }
                O::Sub => {
                    let s = |c: &Ctx, x: N, y: N| c.w(x) == c.w(y) && c.smp[x as usize] == c.smp[y as usize];
                    s(self, ni.a[0], nc.a[0]) && s(self, ni.a[1], nc.a[1]) && self.prove_local(ni.a[0], nc.a[0], depth + 1) && self.prove_local(ni.a[1], nc.a[1], depth + 1)
                }
                O::Ite => {
                    let s = |c: &Ctx, x: N, y: N| c.w(x) == c.w(y) && c.smp[x as usize] == c.smp[y as usize];
                    s(self, ni.a[0], nc.a[0]) && s(self, ni.a[1], nc.a[1]) && s(self, ni.a[2], nc.a[2]) && (0..3).all(|k| self.prove_local(ni.a[k], nc.a[k], depth + 1))
                }
                _ => false,
            };
            if ok {
                self.stats.congruence += 1;
                self.tried.insert((i, c), true);
                return true;
            }
        }
        if self.lin_prove(i, c, depth) {
            self.stats.lin += 1;
            self.tried.insert((i, c), true);
            return true;
        }
        if self.xor_prove(i, c) {
            self.stats.anf += 1;
            self.tried.insert((i, c), true);
            return true;
        }
        for lift in [0usize, 4, 24] {
            let leaves = match self.cut(i, c, lift) {
                Some(l) => l,
                None => {
                    if depth == 0 && dbg() {
                        eprintln!("no cut lift {} {} {}", lift, self.show(i, 4), self.show(c, 4));
                    }
                    continue;
                }
            };
            let leaves = match self.refine(i, c, leaves, lift) {
                Some(l) => l,
                None => {
                    if depth == 0 && dbg() {
                        eprintln!("implausible lift {} {} {}", lift, self.show(i, 4), self.show(c, 4));
                    }
                    continue;
                }
            };
            if self.exhaustive(i, c, &leaves) {
                self.stats.exhaustive += 1;
                self.tried.insert((i, c), true);
                return true;
            }
            if self.anf_prove(i, c, &leaves) {
                self.stats.anf += 1;
                self.tried.insert((i, c), true);
                return true;
            }
            if depth == 0 && self.cone_size(i, c, &leaves) <= 60 {
                let t0 = Instant::now();
                // these attempts are shortcuts: give them less time when they have been running out of it
                let r = self.smt_equal(i, c, &leaves, if self.stats.slow_local < 4 { 2000 } else { 250 });
                if r == Verdict::Unknown && t0.elapsed().as_millis() >= 200 {
                    self.stats.slow_local += 1;
                }
                if dbg() {
                    eprintln!("SMT {:?} {:?}\n   {}\n   {}", t0.elapsed(), r, self.show(i, 5), self.show(c, 5));
                }
                self.stats.smt_ms += t0.elapsed().as_millis() as u64;
                if r == Verdict::Proved {
                    self.stats.smt += 1;
                    self.tried.insert((i, c), true);
                    return true;
                }
            }
        }
        false
    }
    /// lower the cut until both cones agree on random leaf values: first drop leaves that are functions of the
    /// other leaves, then expand the highest ones
    fn refine(&self, i: N, c: N, mut leaves: HashSet<N>, lift: usize) -> Option<HashSet<N>> {
        let mut lifts = lift;
        for _ in 0..60 {
            if self.cut_plausible(i, c, &leaves) {
                return Some(leaves);
            }
            let mut l: Vec<N> = leaves.iter().cloned().filter(|x| !self.is_leafish(*x)).collect();
            l.sort();
            l.reverse();
            let mut done = false;
            let red: Vec<N> = l.iter().cloned().filter(|x| self.covered(*x, &leaves)).collect();
            for x in red {
                if self.covered(x, &leaves) {
                    leaves.remove(&x);
                    done = true;
                }
            }
            if done {
                continue;
            }
            if lifts == 0 {
                return None;
            }
            lifts -= 1;
            let h = *l.first()?;
            leaves.remove(&h);
            for a in self.args(h) {
                if self.op(a) != O::Const {
                    leaves.insert(a);
                }
            }
        }
        None
    }
    fn covered(&self, x: N, leaves: &HashSet<N>) -> bool {
        let mut st = self.args(x);
        let mut cnt = 0;
        let mut seen = HashSet::default();
        while let Some(y) = st.pop() {
            if self.op(y) == O::Const || !seen.insert(y) || (y != x && leaves.contains(&y)) {
                continue;
            }
            cnt += 1;
            if cnt > 16 || self.is_leafish(y) {
                return false;
            }
            st.extend(self.args(y));
        }
        true
    }
    fn cone_size(&self, i: N, c: N, leaves: &HashSet<N>) -> usize {
        let mut seen = HashSet::default();
        let mut st = vec![i, c];
        while let Some(x) = st.pop() {
            if leaves.contains(&x) || !seen.insert(x) {
                continue;
            }
            st.extend(self.args(x));
        }
        seen.len()
    }
    /// evaluate both cones on random leaf values; false if they differ
    fn cut_plausible(&self, i: N, c: N, leaves: &HashSet<N>) -> bool {
        let mut seed = 12345u64;
        for _ in 0..4 {
            let mut vals: HashMap<N, u128> = HashMap::default();
            vals.insert(u32::MAX, seed as u128);
            for l in leaves {
                seed = mix(seed);
                if self.op(*l) == O::Lin {
                    continue;
                }
                vals.insert(*l, mask(mix128(seed, *l as u64), self.w(*l)));
            }
            let a = self.eval_cone(i, &mut vals);
            let b = self.eval_cone(c, &mut vals);
            if a.is_none() || a != b {
                return false;
            }
        }
        true
    }
    /// random evaluation of both terms down to the symbols (diagnostics)
    pub fn deep_plausible(&self, i: N, c: N) -> bool {
        let mut leaves: HashSet<N> = HashSet::default();
        let mut seen: HashSet<N> = HashSet::default();
        let mut st = vec![i, c];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if self.is_leafish(x) {
                leaves.insert(x);
                continue;
            }
            st.extend(self.args(x));
        }
        self.cut_plausible(i, c, &leaves)
    }
    pub fn eval_cone(&self, n: N, vals: &mut HashMap<N, u128>) -> Option<u128> {
        if let Some(v) = vals.get(&n) {
            return Some(*v);
        }
        let nd = self.nd(n);
        if nd.o == O::Const {
            return Some(nd.imm);
        }
        if nd.o == O::Lin {
            let seed = *vals.get(&u32::MAX)? as u64;
            let (l, j, low) = lin_canon(self, n)?;
            let mut h = mix(seed ^ l.c as u64);
            for (s, k) in &l.t {
                h = mix(h ^ mix(*s as u64 ^ (*k as u64).rotate_left(17)));
            }
            return Some(mask((mix128(h, 5) << j) | low, nd.w));
        }
        if self.is_leafish(n) || nd.o == O::Agg {
            return None;
        }
        let args = self.args(n);
        let mut av = vec![];
        for a in &args {
            av.push(self.eval_cone(*a, vals)?);
        }
        let r = self.eval_op(nd, &|k| av[k], &|k| self.w(args[k]));
        vals.insert(n, r);
        Some(r)
    }
    fn exhaustive(&self, i: N, c: N, leaves: &HashSet<N>) -> bool {
        let bits: u32 = leaves.iter().map(|l| self.w(*l)).sum();
        if bits > 16 || leaves.iter().any(|l| self.op(*l) == O::Lin) {
            return false;
        }
        let lv: Vec<N> = leaves.iter().cloned().collect();
        for x in 0..(1u64 << bits) {
            let mut vals = HashMap::default();
            let mut p = 0;
            for l in &lv {
                let w = self.w(*l);
                vals.insert(*l, mask((x >> p) as u128, w));
                p += w;
            }
            let a = self.eval_cone(i, &mut vals);
            if a.is_none() || a != self.eval_cone(c, &mut vals) {
                return false;
            }
        }
        true
    }
    fn anf_prove(&self, i: N, c: N, leaves: &HashSet<N>) -> bool {
        let w = self.w(i);
        let mut an = Anf { c: self, leaves: HashMap::default(), lins: HashMap::default(), next: 0, allow: leaves, memo: HashMap::default(), budget: 200_000 };
        for b in 0..w {
            let x = match an.bit(i, b) {
                Some(x) => x,
                None => return false,
            };
            let y = match an.bit(c, b) {
                Some(y) => y,
                None => return false,
            };
            if x != y {
                return false;
            }
        }
        true
    }
    /// linear arithmetic modulo 2^w: expand i - c from the newest node down; shared sub-terms cancel before they
    /// are expanded, and a node that cannot be expanded must cancel against a proved-equal partner
    fn lin_prove(&mut self, i: N, c: N, depth: u32) -> bool {
        let w = self.w(i);
        let isl = |s: &Ctx, n: N| matches!(s.op(n), O::Add | O::Sub | O::Mul);
        if !isl(self, i) && !isl(self, c) {
            return false;
        }
        let mut m: BTreeMap<N, u128> = BTreeMap::new();
        let mut k = 0u128;
        m.insert(i, 1);
        m.insert(c, ones(w));
        for round in 0..160 {
            let (n, co) = match m.iter().next_back() {
                Some((n, co)) => (*n, *co),
                None => return mask(k, w) == 0,
            };
            // a partner of equal value?
            if round > 0 {
                let cand: Vec<N> = m.iter().filter(|(x, v)| **x != n && mask(co.wrapping_add(**v), w) == 0 && self.smp[**x as usize] == self.smp[n as usize]).map(|x| *x.0).collect();
                if depth < 4 {
                    if let Some(y) = cand.into_iter().find(|y| self.prove_local(n, *y, depth + 1) || self.prove_local(*y, n, depth + 1)) {
                        m.remove(&n);
                        m.remove(&y);
                        continue;
                    }
                }
            }
            m.remove(&n);
            let nd = self.nd(n).clone();
            let mut parts: Vec<(N, u128)> = vec![];
            match nd.o {
                O::Const => k = k.wrapping_add(co.wrapping_mul(nd.imm)),
                O::Add => parts = vec![(nd.a[0], co), (nd.a[1], co)],
                O::Sub => parts = vec![(nd.a[0], co), (nd.a[1], mask(co.wrapping_neg(), w))],
                O::Mul if self.cval(nd.a[1]).is_some() => parts = vec![(nd.a[0], mask(co.wrapping_mul(self.cval(nd.a[1]).unwrap()), w))],
                O::Xor if self.cval(nd.a[1]) == Some(ones(w)) => {
                    k = k.wrapping_sub(co);
                    parts = vec![(nd.a[0], mask(co.wrapping_neg(), w))];
                }
                O::Cat => {
                    let l = self.args(n);
                    if l.len() == 2 && self.cval(l[1]) == Some(0) && self.op(l[0]) == O::Ext && self.nd(l[0]).imm == 0 && self.w(self.nd(l[0]).a[0]) == w {
                        let s = self.w(l[1]);
                        parts = vec![(self.nd(l[0]).a[0], mask(co << s, w))];
                    } else {
                        return false;
                    }
                }
                _ => return false,
            }
            for (x, v) in parts {
                let e = m.entry(x).or_insert(0);
                *e = mask(e.wrapping_add(v), w);
                if *e == 0 {
                    m.remove(&x);
                }
            }
        }
        false
    }
    /// GF(2)-linear reasoning bit by bit: expand i ^ c from the newest node down through xor and wiring;
    /// everything must cancel
    fn xor_prove(&self, i: N, c: N) -> bool {
        let isx = |n: N| match self.op(n) {
            O::Xor => true,
            O::Tab => self.tables[self.nd(n).imm as usize].linear,
            O::Cat | O::Ext => self.args(n).iter().any(|a| self.op(*a) == O::Xor || self.op(*a) == O::Ext && self.op(self.nd(*a).a[0]) == O::Xor),
            _ => false,
        };
        if !isx(i) && !isx(c) {
            return false;
        }
        let w = self.w(i);
        for b in 0..w {
            let mut set: std::collections::BTreeSet<(N, u32)> = Default::default();
            let mut k = false;
            let mut lins: HashSet<(Lin, u32)> = HashSet::default();
            set.insert((i, b));
            if !set.insert((c, b)) {
                continue;
            }
            let mut cnt = 0;
            let mut tabs = false;
            while let Some((n, b)) = set.iter().next_back().cloned() {
                cnt += 1;
                if cnt > if tabs { 60000 } else { 4000 } {
                    return false;
                }
                set.remove(&(n, b));
                let nd = self.nd(n);
                let mut tog = |x: N, y: u32| {
                    if !set.remove(&(x, y)) {
                        set.insert((x, y));
                    }
                };
                match nd.o {
                    O::Const => k ^= (nd.imm >> b) & 1 == 1,
                    O::Xor => {
                        tog(nd.a[0], b);
                        tog(nd.a[1], b);
                    }
                    O::Ext => tog(nd.a[0], b + nd.imm as u32),
                    // the table of a linear function: the sum of its columns
                    O::Tab if self.tables[nd.imm as usize].linear => {
                        tabs = true;
                        let t = &self.tables[nd.imm as usize];
                        let z = (t.v[0] >> b) & 1;
                        k ^= z == 1;
                        for j in 0..t.iw {
                            if (t.v[1 << j] >> b) & 1 != z {
                                tog(nd.a[0], j);
                            }
                        }
                    }
                    // no carry reaches bit b while one operand has only zeros up to it
                    O::Add if b == 0 || [0, 1].iter().any(|j| self.kz[nd.a[*j] as usize] & ones(b + 1) == ones(b + 1)) => {
                        for j in [0, 1] {
                            if (self.kz[nd.a[j] as usize] >> b) & 1 == 0 {
                                tog(nd.a[j], b);
                            }
                        }
                    }
                    O::Cat => {
                        let l = self.args(n);
                        let mut p = 0;
                        for x in l.iter().rev() {
                            let xw = self.w(*x);
                            if b < p + xw {
                                tog(*x, b - p);
                                break;
                            }
                            p += xw;
                        }
                    }
                    O::Lin => {
                        let (l, j, low) = match lin_canon(self, n) {
                            Some(x) => x,
                            None => return false,
                        };
                        if b < j {
                            k ^= (low >> b) & 1 == 1;
                        } else if !lins.remove(&(l.clone(), b - j)) {
                            lins.insert((l, b - j));
                        }
                    }
                    _ => return false,
                }
            }
            if k || !lins.is_empty() {
                return false;
            }
        }
        true
    }
    // ------------------------------------------------------------------ final goals
    /// decide equality of two terms for all symbol values (within declared ranges)
    pub fn decide_eq(&mut self, a: N, b: N, path: &[N]) -> (Verdict, &'static str) {
        let (a, b) = (self.norm(a), self.norm(b));
        if a == b {
            self.stats.structural += 1;
            return (Verdict::Proved, "structural");
        }
        if self.w(a) != self.w(b) {
            return (Verdict::Unknown, "width");
        }
        if matches!(self.op(a), O::Ptr | O::Fn | O::F64) || matches!(self.op(b), O::Ptr | O::Fn | O::F64) {
            return (Verdict::Unknown, "pointer");
        }
        if self.late() {
            return (Verdict::Unknown, "time");
        }
        self.in_proof = true;
        let t0 = Instant::now();
        let same = self.smp[a as usize] == self.smp[b as usize];
        if same && self.prove_local(a, b, 0) {
            self.in_proof = false;
            self.stats.prover_ms += t0.elapsed().as_micros() as u64;
            return (Verdict::Proved, "normaliser");
        }
        if !same && path.is_empty() && self.samples_in_range(a, b) {
            self.in_proof = false;
            self.stats.prover_ms += t0.elapsed().as_micros() as u64;
            return (Verdict::Refuted, "sample");
        }
        // full cone to SMT when small and random evaluation finds no difference
        let leaves: HashSet<N> = HashSet::default();
        let sz = self.cone_size(a, b, &leaves);
        let mut v = Verdict::Unknown;
        if sz < 4000 && (!path.is_empty() || self.no_counterexample(a, b)) {
            let t1 = Instant::now();
            v = self.smt_equal_path(a, b, path, 6000);
            self.stats.smt_ms += t1.elapsed().as_millis() as u64;
            if v == Verdict::Proved {
                self.stats.smt += 1;
            }
        }
        self.in_proof = false;
        self.stats.prover_ms += t0.elapsed().as_micros() as u64;
        if v == Verdict::Proved {
            return (v, "smt");
        }
        if !same && path.is_empty() && self.samples_in_range(a, b) {
            return (Verdict::Refuted, "sample");
        }
        (v, "smt")
    }
    /// evaluate both terms on random leaf values; false when they differ (the leaves are independent of each other)
    fn no_counterexample(&self, a: N, b: N) -> bool {
        let mut seen = HashSet::default();
        let mut st = vec![a, b];
        let mut lv = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) || self.op(x) == O::Const {
                continue;
            }
            if self.op(x) == O::Lin {
                return true;
            }
            if self.is_leafish(x) {
                lv.push(x);
            } else {
                st.extend(self.args(x));
            }
        }
        for r in 0..24u64 {
            let mut vals: HashMap<N, u128> = HashMap::default();
            for l in &lv {
                let h = mix128(mix((*l as u64) << 8 ^ r ^ 0x5eed), r);
                vals.insert(*l, mask(h, self.w(*l)));
            }
            match (self.eval_cone(a, &mut vals), self.eval_cone(b, &mut vals)) {
                (Some(x), Some(y)) if x != y => return false,
                (Some(_), Some(_)) => {}
                _ => return true,
            }
        }
        true
    }
    /// all affine symbols in the two cones have lane samples inside their current ranges
    fn samples_in_range(&self, a: N, b: N) -> bool {
        let mut seen = HashSet::default();
        let mut st = vec![a, b];
        let mut lanes = [true; NL];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if self.op(x) == O::Lin {
                for (s, _) in &self.lins[self.nd(x).imm as usize].t {
                    let (lo, hi) = self.rng[*s as usize];
                    for l in 0..NL {
                        let v = self.asyms[*s as usize].sample[l];
                        if v < lo || v > hi {
                            lanes[l] = false;
                        }
                    }
                }
            }
            st.extend(self.args(x));
        }
        (0..NL).any(|l| lanes[l] && self.smp[a as usize][l] != self.smp[b as usize][l])
    }
    /// prove that a boolean term is always true under the path assumptions
    pub fn decide_true(&mut self, g: N, path: &[N]) -> (Verdict, &'static str) {
        match self.cval(g) {
            Some(1) => {
                self.stats.structural += 1;
                return (Verdict::Proved, "const");
            }
            Some(_) if path.is_empty() => return (Verdict::Refuted, "const"),
            _ => {}
        }
        let one = self.c(1, 1);
        let t1 = Instant::now();
        let v = self.smt_equal_path(g, one, path, 20000);
        self.stats.smt_ms += t1.elapsed().as_millis() as u64;
        if v == Verdict::Proved {
            self.stats.smt += 1;
        }
        (v, "smt")
    }
    // ------------------------------------------------------------------ SMT-LIB
    fn smt_term(&self, n: N, leaves: &HashSet<N>, done: &mut HashMap<N, String>, decls: &mut String, defs: &mut String, asserts: &mut String) -> Option<String> {
        if let Some(s) = done.get(&n) {
            return Some(s.clone());
        }
        let nd = self.nd(n).clone();
        let w = nd.w;
        let name = format!("n{}", n);
        if nd.o == O::Const {
            let s = format!("(_ bv{} {})", nd.imm, w);
            done.insert(n, s.clone());
            return Some(s);
        }
        if leaves.contains(&n) || matches!(nd.o, O::Sym | O::Undef | O::Ptr | O::App) {
            *decls += &format!("(declare-const {} (_ BitVec {}))\n", name, w.max(1));
            done.insert(n, name.clone());
            return Some(name);
        }
        if nd.o == O::InB {
            // distinct offset terms may alias: only sound as independent leaves for validity (over-approximation)
            *decls += &format!("(declare-const {} (_ BitVec 8))\n", name);
            done.insert(n, name.clone());
            return Some(name);
        }
        if nd.o == O::Lin {
            let l = &self.lins[nd.imm as usize];
            let mut e = format!("(_ bv{} {})", mask(l.c as u128, w), w);
            for (s, k) in &l.t {
                let sn = format!("s{}", s);
                if !decls.contains(&format!("(declare-const {} ", sn)) {
                    *decls += &format!("(declare-const {} (_ BitVec 128))\n", sn);
                    let (lo, hi) = self.rng[*s as usize];
                    *asserts += &format!("(assert (bvsle (_ bv{} 128) {}))\n(assert (bvsle {} (_ bv{} 128)))\n", lo as u128, sn, sn, hi as u128);
                }
                let x = if w == 128 { sn } else { format!("((_ extract {} 0) {})", w - 1, sn) };
                e = format!("(bvadd {} (bvmul {} (_ bv{} {})))", e, x, mask(*k as u128, w), w);
            }
            *defs += &format!("(define-fun {} () (_ BitVec {}) {})\n", name, w, e);
            done.insert(n, name.clone());
            return Some(name);
        }
        let args = self.args(n);
        let mut a = vec![];
        for x in &args {
            a.push(self.smt_term(*x, leaves, done, decls, defs, asserts)?);
        }
        let b1 = |s: String| format!("(ite {} #b1 #b0)", s);
        let e = match nd.o {
            O::Add => format!("(bvadd {} {})", a[0], a[1]),
            O::Sub => format!("(bvsub {} {})", a[0], a[1]),
            O::Mul => format!("(bvmul {} {})", a[0], a[1]),
            O::UDiv => format!("(bvudiv {} {})", a[0], a[1]),
            O::URem => format!("(bvurem {} {})", a[0], a[1]),
            O::SDiv => format!("(bvsdiv {} {})", a[0], a[1]),
            O::SRem => format!("(bvsrem {} {})", a[0], a[1]),
            O::And => format!("(bvand {} {})", a[0], a[1]),
            O::Or => format!("(bvor {} {})", a[0], a[1]),
            O::Xor => format!("(bvxor {} {})", a[0], a[1]),
            O::Shl => format!("(bvshl {} {})", a[0], a[1]),
            O::LShr => format!("(bvlshr {} {})", a[0], a[1]),
            O::AShr => format!("(bvashr {} {})", a[0], a[1]),
            O::Eq => b1(format!("(= {} {})", a[0], a[1])),
            O::Ult => b1(format!("(bvult {} {})", a[0], a[1])),
            O::Slt => b1(format!("(bvslt {} {})", a[0], a[1])),
            O::Ite => format!("(ite (= {} #b1) {} {})", a[0], a[1], a[2]),
            O::Cat => format!("(concat {})", a.join(" ")),
            O::Ext => format!("((_ extract {} {}) {})", nd.imm as u32 + w - 1, nd.imm, a[0]),
            O::Tab => {
                let t = &self.tables[nd.imm as usize];
                if t.iw > 8 {
                    return None;
                }
                let fname = format!("tab{}", nd.imm);
                if !defs.contains(&format!("(define-fun {} ", fname)) {
                    let mut body = format!("(_ bv{} {})", t.v[0], t.w);
                    for (k, v) in t.v.iter().enumerate().skip(1) {
                        body = format!("(ite (= x (_ bv{} {})) (_ bv{} {}) {})", k, t.iw, v, t.w, body);
                    }
                    *defs += &format!("(define-fun {} ((x (_ BitVec {}))) (_ BitVec {}) {})\n", fname, t.iw, t.w, body);
                }
                format!("({} {})", fname, a[0])
            }
            _ => return None,
        };
        *defs += &format!("(define-fun {} () (_ BitVec {}) {})\n", name, w, e);
        done.insert(n, name.clone());
        Some(name)
    }
    fn smt_equal(&self, a: N, b: N, leaves: &HashSet<N>, ms: u64) -> Verdict {
        let mut done = HashMap::default();
        let (mut decls, mut defs, mut asserts) = (String::new(), String::new(), String::new());
        let (x, y) = match (self.smt_term(a, leaves, &mut done, &mut decls, &mut defs, &mut asserts), self.smt_term(b, leaves, &mut done, &mut decls, &mut defs, &mut asserts)) {
            (Some(x), Some(y)) => (x, y),
            _ => return Verdict::Unknown,
        };
        let q = format!("(set-logic QF_BV)\n{}{}{}(assert (not (= {} {})))\n(check-sat)\n", decls, asserts, defs, x, y);
        match run_smt_with(&q, ms, false) {
            Some(false) => Verdict::Proved,
            _ => Verdict::Unknown,
        }
    }
    fn smt_equal_path(&self, a: N, b: N, path: &[N], ms: u64) -> Verdict {
        let leaves = HashSet::default();
        let mut done = HashMap::default();
        let (mut decls, mut defs, mut asserts) = (String::new(), String::new(), String::new());
        let (x, y) = match (self.smt_term(a, &leaves, &mut done, &mut decls, &mut defs, &mut asserts), self.smt_term(b, &leaves, &mut done, &mut decls, &mut defs, &mut asserts)) {
            (Some(x), Some(y)) => (x, y),
            _ => return Verdict::Unknown,
        };
        let mut pa = String::new();
        for p in path {
            if let Some(s) = self.smt_term(*p, &leaves, &mut done, &mut decls, &mut defs, &mut asserts) {
                pa += &format!("(assert (= {} #b1))\n", s);
            }
        }
        let q = format!("(set-logic QF_BV)\n{}{}{}{}(assert (not (= {} {})))\n(check-sat)\n", decls, asserts, defs, pa, x, y);
        match run_smt(&q, ms) {
            Some(false) => Verdict::Proved,
            Some(true) => Verdict::Refuted,
            None => Verdict::Unknown,
        }
    }
}

type Solver = (std::process::Child, std::sync::mpsc::Receiver<String>);
thread_local! {
    static SOLVER: std::cell::RefCell<Option<Solver>> = std::cell::RefCell::new(None);
    static ANSWERS: std::cell::RefCell<std::collections::HashMap<String, Option<bool>>> = std::cell::RefCell::new(Default::default());
}

/// the query with its identifiers renamed in order of appearance
fn canonical(q: &str) -> String {
    let b = q.as_bytes();
    let mut names: HashMap<&[u8], usize> = HashMap::default();
    let mut o = String::with_capacity(q.len());
    let id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'#' || c == b'-';
    let mut i = 0;
    while i < b.len() {
        if id(b[i]) {
            let mut j = i;
            while j < b.len() && id(b[j]) {
                j += 1;
            }
            let w = &b[i..j];
            if w.len() > 1 && (w[0] == b'n' || w[0] == b's') && w[1..].iter().all(|c| c.is_ascii_digit()) {
                let k = names.len();
                let k = *names.entry(w).or_insert(k);
                o.push_str(&format!("n{}", k));
            } else {
                o.push_str(std::str::from_utf8(w).unwrap());
            }
            i = j;
        } else {
            o.push(b[i] as char);
            i += 1;
        }
    }
    o
}

/// None: the solver process failed or ran out of time
fn ask(q: &str, ms: u64) -> Option<Option<bool>> {
    use std::io::BufRead;
    use std::time::Duration;
    SOLVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let mut ch = Command::new("z3").arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let out = std::io::BufReader::new(ch.stdout.take()?);
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                for l in out.lines() {
                    match l {
                        Ok(l) => {
                            if tx.send(l).is_err() {
                                break;
                            }
                        }
                        Err(_) => break,
                    }
                }
            });
            *s = Some((ch, rx));
        }
        let (ch, rx) = s.as_mut().unwrap();
        let text = format!("{}(echo \"done\")\n(reset)\n", q);
        let si = ch.stdin.as_mut()?;
        let mut ok = si.write_all(text.as_bytes()).is_ok() && si.flush().is_ok();
        let (mut res, mut err) = (None, false);
        let end = Instant::now() + Duration::from_millis(ms);
        while ok {
            match rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(l) => match l.trim() {
                    "done" => break,
                    "sat" => res = Some(true),
                    "unsat" => res = Some(false),
                    l if l.contains("error") => err = true,
                    _ => {}
                },
                Err(_) => ok = false,
            }
        }
        if !ok {
            let (mut ch, _) = s.take().unwrap();
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        Some(if err { None } else { res })
    })
}

/// Some(true)=sat, Some(false)=unsat
pub fn run_smt(q: &str, ms: u64) -> Option<bool> {
    run_smt_with(q, ms, true)
}
fn run_smt_with(q: &str, ms: u64, second: bool) -> Option<bool> {
    if let Ok(d) = std::env::var("IRV_SMT_DUMP") {
        let _ = std::fs::create_dir_all(&d);
        let _ = std::fs::write(format!("{}/{:x}.smt2", d, mix(q.len() as u64 ^ q.as_bytes().iter().fold(7u64, |a, b| mix(a ^ *b as u64)))), q);
    }
    let key = canonical(q);
    if let Some(r) = ANSWERS.with(|a| a.borrow().get(&key).cloned()) {
        return r;
    }
    let r = match ask(q, ms) {
        Some(Some(r)) => Some(r),
        _ if second => run_cvc5(q, ms),
        _ => return None,
    };
    ANSWERS.with(|a| a.borrow_mut().insert(key, r));
    r
}

fn run_cvc5(q: &str, ms: u64) -> Option<bool> {
    let mut ch = Command::new("cvc5").args(["--lang=smt2", &format!("--tlimit={}", ms), "-"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    {
        let mut si = ch.stdin.take().unwrap();
        let _ = si.write_all(q.as_bytes());
    }
    let o = ch.wait_with_output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout);
    if s.contains("error") {
        return None;
    }
    if s.lines().any(|l| l.trim() == "unsat") {
        return Some(false);
    }
    if s.lines().any(|l| l.trim() == "sat") {
        return Some(true);
    }
    None
}
