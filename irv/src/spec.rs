//! Reference specifications of the hash functions, written from their standards (not from /repo).
//! Each is given as: initial chaining words, the step that absorbs one block, the padding/finalisation,
//! and the serialisation of the final words.
use crate::consts::*;
use crate::term::*;
use std::rc::Rc;

pub type StepFn = Rc<dyn Fn(&mut Ctx, &[N], &[N], N) -> Vec<N>>; // words, block bytes, bytes before the block (128 bit)
pub type FinFn = Rc<dyn Fn(&mut Ctx, &[N], &[N], N) -> Vec<N>>; // words, tail bytes, total bytes (128 bit)

#[derive(Clone)]
pub struct Spec {
    pub name: String,
    pub b: usize,
    pub lazy: bool,
    pub widths: Vec<u32>,
    pub fwidths: Vec<u32>,
    pub iv: Rc<dyn Fn(&mut Ctx, &[N]) -> Vec<N>>, // parameter bytes (keys) -> words
    pub step: StepFn,
    pub fin: FinFn,
    pub out: Rc<dyn Fn(&mut Ctx, &[N]) -> Vec<N>>,
    pub outlen: usize,
    pub inj: Option<Rc<dyn Fn(&[N]) -> Vec<N>>>, // final words that determine the digest by a lemma (listed as an assumption)
    pub max_bytes_log2: u32, // messages longer than this are outside the algorithm's domain
}

pub fn be(c: &mut Ctx, b: &[N]) -> N {
    c.cat(b.to_vec())
}
pub fn le(c: &mut Ctx, b: &[N]) -> N {
    let mut v = b.to_vec();
    v.reverse();
    c.cat(v)
}
pub fn bytes_be(c: &mut Ctx, x: N) -> Vec<N> {
    let w = c.w(x);
    (0..w / 8).rev().map(|i| c.ext(x, 8 * i, 8)).collect()
}
pub fn bytes_le(c: &mut Ctx, x: N) -> Vec<N> {
    let w = c.w(x);
    (0..w / 8).map(|i| c.ext(x, 8 * i, 8)).collect()
}
pub fn words_be(c: &mut Ctx, blk: &[N], n: usize) -> Vec<N> {
    blk.chunks(n).map(|b| be(c, b)).collect()
}
pub fn words_le(c: &mut Ctx, blk: &[N], n: usize) -> Vec<N> {
    blk.chunks(n).map(|b| le(c, b)).collect()
}
fn consts(c: &mut Ctx, w: u32, v: &[u64]) -> Vec<N> {
    v.iter().map(|x| c.c(w, *x as u128)).collect()
}
fn u32s(v: &[u32]) -> Vec<u64> {
    v.iter().map(|x| *x as u64).collect()
}
macro_rules! sum {
    ($c:expr, $a:expr) => { $a };
    ($c:expr, $a:expr, $($r:expr),+) => {{ let r = sum!($c, $($r),+); $c.add($a, r) }};
}
macro_rules! xor {
    ($c:expr, $a:expr) => { $a };
    ($c:expr, $a:expr, $($r:expr),+) => {{ let r = xor!($c, $($r),+); $c.xor($a, r) }};
}
fn ch(c: &mut Ctx, x: N, y: N, z: N) -> N {
    // (x & y) ^ (~x & z)
    let a = c.and(x, y);
    let n = c.not(x);
    let b = c.and(n, z);
    c.xor(a, b)
}
fn maj(c: &mut Ctx, x: N, y: N, z: N) -> N {
    let a = c.and(x, y);
    let b = c.and(x, z);
    let d = c.and(y, z);
    xor!(c, a, b, d)
}

/// Merkle-Damgard strengthening: tail || pad || 0* || length field
fn md_fin(step: StepFn, b: usize, pad: u128, lenbytes: usize, big: bool, in_bits: bool) -> FinFn {
    Rc::new(move |c, h, tail, total| {
        let mut m = tail.to_vec();
        m.push(c.c(8, pad));
        let z = c.c(8, 0);
        while (m.len() + lenbytes) % b != 0 {
            m.push(z);
        }
        let len = if in_bits { c.shl_c(total, 3) } else { total };
        let lb = (8 * lenbytes) as u32;
        let mut f = if lb <= 128 {
            let l = c.ext(len, 0, lb);
            bytes_be(c, l)
        } else {
            // 256-bit big-endian length field: the byte count is below 2^125, upper half is zero
            let mut v = vec![z; lenbytes - 16];
            v.extend(bytes_be(c, len));
            v
        };
        if !big {
            f.reverse();
        }
        m.extend(f);
        let mut w = h.to_vec();
        let cnt = c.c(128, 0); // not used by these steps
        for blk in m.chunks(b) {
            w = step(c, &w, blk, cnt);
        }
        w
    })
}
fn out_be(n: usize) -> Rc<dyn Fn(&mut Ctx, &[N]) -> Vec<N>> {
    Rc::new(move |c, w| {
        let mut v: Vec<N> = w.iter().flat_map(|x| bytes_be(c, *x)).collect();
        v.truncate(n);
        v
    })
}
fn out_le(n: usize) -> Rc<dyn Fn(&mut Ctx, &[N]) -> Vec<N>> {
    Rc::new(move |c, w| {
        let mut v: Vec<N> = w.iter().flat_map(|x| bytes_le(c, *x)).collect();
        v.truncate(n);
        v
    })
}
fn fixed_iv(w: u32, v: Vec<u64>) -> Rc<dyn Fn(&mut Ctx, &[N]) -> Vec<N>> {
    Rc::new(move |c, _| consts(c, w, &v))
}
#[allow(clippy::too_many_arguments)]
fn md(name: &str, b: usize, w: u32, iv: Vec<u64>, step: StepFn, pad: u128, lenbytes: usize, big: bool, outlen: usize) -> Spec {
    let n = iv.len();
    Spec {
        name: name.into(),
        b,
        lazy: false,
        widths: vec![w; n],
        fwidths: vec![w; n],
        iv: fixed_iv(w, iv),
        fin: md_fin(step.clone(), b, pad, lenbytes, big, true),
        step,
        out: if big { out_be(outlen) } else { out_le(outlen) },
        outlen,
        inj: None,
        max_bytes_log2: if lenbytes == 8 { 61 } else { 125 },
    }
}

// ---------------------------------------------------------------- SHA-1, SHA-2
fn sha1_step() -> StepFn {
    Rc::new(|c, h, blk, _| {
        let mut w = words_be(c, blk, 4);
        for t in 16..80 {
            let x = xor!(c, w[t - 3], w[t - 8], w[t - 14], w[t - 16]);
            let r = c.rotl(x, 1);
            w.push(r);
        }
        let (mut a, mut b, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for t in 0..80 {
            let (f, k) = match t / 20 {
                0 => (ch(c, b, cc, d), 0x5a827999u128),
                1 => (xor!(c, b, cc, d), 0x6ed9eba1),
                2 => (maj(c, b, cc, d), 0x8f1bbcdc),
                _ => (xor!(c, b, cc, d), 0xca62c1d6),
            };
            let k = c.c(32, k);
            let r = c.rotl(a, 5);
            let tmp = sum!(c, r, f, e, k, w[t]);
            e = d;
            d = cc;
            cc = c.rotl(b, 30);
            b = a;
            a = tmp;
        }
        [a, b, cc, d, e].iter().zip(h).map(|(x, y)| c.add(*x, *y)).collect()
    })
}
fn sha2_step(big: bool) -> StepFn {
    Rc::new(move |c, h, blk, _| {
        let wb = if big { 8 } else { 4 };
        let bits = 8 * wb as u32;
        let k: Vec<u64> = if big { SHA_K64.to_vec() } else { u32s(&SHA_K32) };
        let r: [[u32; 3]; 4] = if big { [[28, 34, 39], [14, 18, 41], [1, 8, 7], [19, 61, 6]] } else { [[2, 13, 22], [6, 11, 25], [7, 18, 3], [17, 19, 10]] };
        let bigsig = |c: &mut Ctx, x: N, r: [u32; 3]| {
            let (p, q, s) = (c.rotr(x, r[0]), c.rotr(x, r[1]), c.rotr(x, r[2]));
            xor!(c, p, q, s)
        };
        let smallsig = |c: &mut Ctx, x: N, r: [u32; 3]| {
            let (p, q, s) = (c.rotr(x, r[0]), c.rotr(x, r[1]), c.lshr_c(x, r[2]));
            xor!(c, p, q, s)
        };
        let mut w = words_be(c, blk, wb);
        for t in 16..k.len() {
            let s1 = smallsig(c, w[t - 2], r[3]);
            let s0 = smallsig(c, w[t - 15], r[2]);
            let x = sum!(c, s1, w[t - 7], s0, w[t - 16]);
            w.push(x);
        }
        let mut v = h.to_vec();
        for t in 0..k.len() {
            let s1 = bigsig(c, v[4], r[1]);
            let f = ch(c, v[4], v[5], v[6]);
            let kk = c.c(bits, k[t] as u128);
            let t1 = sum!(c, v[7], s1, f, kk, w[t]);
            let s0 = bigsig(c, v[0], r[0]);
            let m = maj(c, v[0], v[1], v[2]);
            let t2 = c.add(s0, m);
            let e = c.add(v[3], t1);
            let a = c.add(t1, t2);
            v = vec![a, v[0], v[1], v[2], e, v[4], v[5], v[6]];
        }
        v.iter().zip(h).map(|(x, y)| c.add(*x, *y)).collect()
    })
}
// ---------------------------------------------------------------- MD4, MD5
fn md4_step() -> StepFn {
    Rc::new(|c, h, blk, _| {
        let x = words_le(c, blk, 4);
        let mut v = h.to_vec();
        let ord: [[usize; 16]; 3] = [
            [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
            [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15],
            [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15],
        ];
        let s = [[3, 7, 11, 19], [3, 5, 9, 13], [3, 9, 11, 15]];
        let k = [0u128, 0x5a827999, 0x6ed9eba1];
        for r in 0..3 {
            for i in 0..16 {
                let (a, b, cc, d) = (v[0], v[1], v[2], v[3]);
                let f = match r {
                    0 => ch(c, b, cc, d),
                    1 => maj(c, b, cc, d),
                    _ => xor!(c, b, cc, d),
                };
                let kk = c.c(32, k[r]);
                let t = sum!(c, a, f, x[ord[r][i]], kk);
                let t = c.rotl(t, s[r][i % 4]);
                v = vec![d, t, b, cc];
            }
        }
        v.iter().zip(h).map(|(x, y)| c.add(*x, *y)).collect()
    })
}
fn md5_step() -> StepFn {
    Rc::new(|c, h, blk, _| {
        let x = words_le(c, blk, 4);
        let mut v = h.to_vec();
        let s = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
        for i in 0..64 {
            let (a, b, cc, d) = (v[0], v[1], v[2], v[3]);
            let (f, g) = match i / 16 {
                0 => (ch(c, b, cc, d), i),
                1 => (ch(c, d, b, cc), (5 * i + 1) % 16),
                2 => (xor!(c, b, cc, d), (3 * i + 5) % 16),
                _ => {
                    let n = c.not(d);
                    let o = c.or(b, n);
                    (c.xor(cc, o), (7 * i) % 16)
                }
            };
            let kk = c.c(32, MD5_T[i] as u128);
            let t = sum!(c, a, f, x[g], kk);
            let t = c.rotl(t, s[i / 16][i % 4]);
            let nb = c.add(b, t);
            v = vec![d, nb, b, cc];
        }
        v.iter().zip(h).map(|(x, y)| c.add(*x, *y)).collect()
    })
}
// ---------------------------------------------------------------- MD2
fn md2() -> Spec {
    fn update_x(c: &mut Ctx, x: &[N], m: &[N]) -> Vec<N> {
        let sb = c.table(8, 8, MD2_S.iter().map(|v| *v as u128).collect());
        let mut y = x.to_vec();
        y.extend_from_slice(m);
        for j in 0..16 {
            let t = c.xor(m[j], x[j]);
            y.push(t);
        }
        let mut t = c.c(8, 0);
        for j in 0..18 {
            for k in 0..48 {
                let s = c.tab(sb, t);
                t = c.xor(y[k], s);
                y[k] = t;
            }
            let jj = c.c(8, j);
            t = c.add(t, jj);
        }
        y
    }
    let step: StepFn = Rc::new(|c, h, m, _| {
        let sb = c.table(8, 8, MD2_S.iter().map(|v| *v as u128).collect());
        let (x, ck) = (&h[..16], &h[16..]);
        let mut l = ck[15];
        let mut nc = vec![];
        for j in 0..16 {
            let i = c.xor(m[j], l);
            let s = c.tab(sb, i);
            l = c.xor(ck[j], s);
            nc.push(l);
        }
        let mut r = update_x(c, x, m);
        r.truncate(16);
        r.extend(nc);
        r
    });
    let st = step.clone();
    Spec {
        name: "MD2".into(),
        b: 16,
        lazy: false,
        widths: vec![8; 32],
        // the whole 48-byte buffer X: the first 16 bytes are the digest
        fwidths: vec![8; 48],
        iv: fixed_iv(8, vec![0; 32]),
        step,
        fin: Rc::new(move |c, h, tail, total| {
            let p = 16 - tail.len();
            let mut m = tail.to_vec();
            for _ in 0..p {
                m.push(c.c(8, p as u128));
            }
            let h2 = st(c, h, &m, total);
            let ck = h2[16..].to_vec();
            update_x(c, &h2[..16], &ck)
        }),
        out: out_be(16),
        outlen: 16,
        inj: None,
        max_bytes_log2: 125,
    }
}
// ---------------------------------------------------------------- RIPEMD family
const RL: [usize; 80] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5,
    6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
];
const RR: [usize; 80] = [
    5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7,
    10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
];
const SL: [u32; 80] = [
    11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6,
    8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
];
const SR: [u32; 80] = [
    8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9,
    12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
];
fn rf(c: &mut Ctx, j: usize, x: N, y: N, z: N) -> N {
    match j / 16 {
        0 => xor!(c, x, y, z),
        1 => ch(c, x, y, z),
        2 => {
            let n = c.not(y);
            let o = c.or(x, n);
            c.xor(o, z)
        }
        3 => ch(c, z, x, y),
        _ => {
            let n = c.not(z);
            let o = c.or(y, n);
            c.xor(x, o)
        }
    }
}
fn ripemd_step(bits: u32) -> StepFn {
    Rc::new(move |c, h, blk, _| {
        let x = words_le(c, blk, 4);
        let kl = [0u128, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
        let five = bits == 160 || bits == 320;
        let rounds = if five { 5 } else { 4 };
        let kr: [u128; 5] = if five { [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0] } else { [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0, 0] };
        let nw = if five { 5 } else { 4 };
        let dbl = bits == 256 || bits == 320;
        let mut l: Vec<N> = h[..nw].to_vec();
        let mut r: Vec<N> = if dbl { h[nw..].to_vec() } else { l.clone() };
        for j in 0..16 * rounds {
            let k1 = c.c(32, kl[j / 16]);
            let k2 = c.c(32, kr[j / 16]);
            let jr = 16 * rounds - 1 - j;
            if five {
                let f = rf(c, j, l[1], l[2], l[3]);
                let t = sum!(c, l[0], f, x[RL[j]], k1);
                let t = c.rotl(t, SL[j]);
                let t = c.add(t, l[4]);
                let r10 = c.rotl(l[2], 10);
                l = vec![l[4], t, l[1], r10, l[3]];
                let f = rf(c, jr, r[1], r[2], r[3]);
                let t = sum!(c, r[0], f, x[RR[j]], k2);
                let t = c.rotl(t, SR[j]);
                let t = c.add(t, r[4]);
                let r10 = c.rotl(r[2], 10);
                r = vec![r[4], t, r[1], r10, r[3]];
            } else {
                let f = rf(c, j, l[1], l[2], l[3]);
                let t = sum!(c, l[0], f, x[RL[j]], k1);
                let t = c.rotl(t, SL[j]);
                l = vec![l[3], t, l[1], l[2]];
                let f = rf(c, jr, r[1], r[2], r[3]);
                let t = sum!(c, r[0], f, x[RR[j]], k2);
                let t = c.rotl(t, SR[j]);
                r = vec![r[3], t, r[1], r[2]];
            }
            if dbl && j % 16 == 15 {
                // RIPEMD-256 exchanges A,B,C,D after rounds 1..4; RIPEMD-320 exchanges B,D,A,C,E
                let k = if bits == 256 { [0, 1, 2, 3][j / 16] } else { [1, 3, 0, 2, 4][j / 16] };
                let t = l[k];
                l[k] = r[k];
                r[k] = t;
            }
        }
        if dbl {
            let mut v = l;
            v.extend(r);
            return v.iter().zip(h).map(|(x, y)| c.add(*x, *y)).collect();
        }
        (0..nw)
            .map(|i| sum!(c, h[(i + 1) % nw], l[(i + 2) % nw], r[(i + 3) % nw]))
            .collect()
    })
}
// ---------------------------------------------------------------- HAS-160
fn has160_step() -> StepFn {
    Rc::new(|c, h, blk, _| {
        let x = words_le(c, blk, 4);
        let ext: [[[usize; 4]; 4]; 4] = [
            [[0, 1, 2, 3], [4, 5, 6, 7], [8, 9, 10, 11], [12, 13, 14, 15]],
            [[3, 6, 9, 12], [15, 2, 5, 8], [11, 14, 1, 4], [7, 10, 13, 0]],
            [[12, 5, 14, 7], [0, 9, 2, 11], [4, 13, 6, 15], [8, 1, 10, 3]],
            [[7, 2, 13, 8], [3, 14, 9, 4], [15, 10, 5, 0], [11, 6, 1, 12]],
        ];
        let s1 = [5, 11, 7, 15, 6, 13, 8, 14, 7, 12, 9, 11, 8, 15, 6, 12, 9, 14, 5, 13];
        let s2 = [10, 17, 25, 30];
        let k = [0u128, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc];
        let mut v = h.to_vec();
        for r in 0..4 {
            let e: Vec<N> = ext[r].iter().map(|q| xor!(c, x[q[0]], x[q[1]], x[q[2]], x[q[3]])).collect();
            // the order interleaves the four extra words at steps 0, 5, 10, 15: X18, X19, X16, X17
            for j in 0..20 {
                let w = if j % 5 == 0 { e[[2, 3, 0, 1][j / 5]] } else { x[ext[r][j / 5][j % 5 - 1]] };
                let f = match r {
                    0 => ch(c, v[1], v[2], v[3]),
                    2 => {
                        let n = c.not(v[3]);
                        let o = c.or(v[1], n);
                        c.xor(v[2], o)
                    }
                    _ => xor!(c, v[1], v[2], v[3]),
                };
                let kk = c.c(32, k[r]);
                let a = c.rotl(v[0], s1[j]);
                let t = sum!(c, a, f, v[4], w, kk);
                let b = c.rotl(v[1], s2[r]);
                v = vec![t, v[0], b, v[2], v[3]];
            }
        }
        v.iter().zip(h).map(|(x, y)| c.add(*x, *y)).collect()
    })
}
// ---------------------------------------------------------------- SM3
fn sm3_step() -> StepFn {
    Rc::new(|c, h, blk, _| {
        let mut w = words_be(c, blk, 4);
        for j in 16..68 {
            let r = c.rotl(w[j - 3], 15);
            let x = xor!(c, w[j - 16], w[j - 9], r);
            let (r1, r2) = (c.rotl(x, 15), c.rotl(x, 23));
            let p = xor!(c, x, r1, r2);
            let r7 = c.rotl(w[j - 13], 7);
            let y = xor!(c, p, r7, w[j - 6]);
            w.push(y);
        }
        let mut v = h.to_vec();
        for j in 0..64 {
            let t: u32 = if j < 16 { 0x79cc4519 } else { 0x7a879d8a };
            let tj = c.c(32, t.rotate_left(j as u32 % 32) as u128);
            let a12 = c.rotl(v[0], 12);
            let s = sum!(c, a12, v[4], tj);
            let ss1 = c.rotl(s, 7);
            let ss2 = c.xor(ss1, a12);
            let w2 = c.xor(w[j], w[j + 4]);
            let (ff, gg) = if j < 16 {
                (xor!(c, v[0], v[1], v[2]), xor!(c, v[4], v[5], v[6]))
            } else {
                (maj(c, v[0], v[1], v[2]), ch(c, v[4], v[5], v[6]))
            };
            let tt1 = sum!(c, ff, v[3], ss2, w2);
            let tt2 = sum!(c, gg, v[7], ss1, w[j]);
            let b9 = c.rotl(v[1], 9);
            let f19 = c.rotl(v[5], 19);
            let (p9, p17) = (c.rotl(tt2, 9), c.rotl(tt2, 17));
            let p0 = xor!(c, tt2, p9, p17);
            v = vec![tt1, v[0], b9, v[2], p0, v[4], f19, v[6]];
        }
        v.iter().zip(h).map(|(x, y)| c.xor(*x, *y)).collect()
    })
}
// ---------------------------------------------------------------- Tiger
fn tiger_step() -> StepFn {
    Rc::new(|c, h, blk, _| {
        let ts: Vec<u32> = [&TIGER_T1, &TIGER_T2, &TIGER_T3, &TIGER_T4].iter().map(|t| c.table(8, 64, t.iter().map(|x| *x as u128).collect())).collect();
        let mut x = words_le(c, blk, 8);
        let mut v = h.to_vec();
        for pass in 0..3 {
            let mul = c.c(64, [5u128, 7, 9][pass]);
            for i in 0..8 {
                let (a, b, cc) = (i % 3, (i + 1) % 3, (i + 2) % 3);
                v[cc] = c.xor(v[cc], x[i]);
                let by = bytes_le(c, v[cc]);
                let e = [c.tab(ts[0], by[0]), c.tab(ts[1], by[2]), c.tab(ts[2], by[4]), c.tab(ts[3], by[6])];
                let s = xor!(c, e[0], e[1], e[2], e[3]);
                v[a] = c.sub(v[a], s);
                let o = [c.tab(ts[3], by[1]), c.tab(ts[2], by[3]), c.tab(ts[1], by[5]), c.tab(ts[0], by[7])];
                let s = xor!(c, o[0], o[1], o[2], o[3]);
                let t = c.add(v[b], s);
                v[b] = c.mul(t, mul);
            }
            // after 8 rounds the roles (a,b,c) have rotated: the next pass is called as pass(c,a,b), then pass(b,c,a)
            v = vec![v[2], v[0], v[1]];
            if pass < 2 {
                let k1 = c.c(64, 0xa5a5a5a5a5a5a5a5);
                let k2 = c.c(64, 0x0123456789abcdef);
                let t = c.xor(x[7], k1);
                x[0] = c.sub(x[0], t);
                x[1] = c.xor(x[1], x[0]);
                x[2] = c.add(x[2], x[1]);
                let sh = |c: &mut Ctx, a: N, b: N, left: bool| {
                    let n = c.not(b);
                    let s = if left { c.shl_c(n, 19) } else { c.lshr_c(n, 23) };
                    c.xor(a, s)
                };
                let t = sh(c, x[2], x[1], true);
                x[3] = c.sub(x[3], t);
                x[4] = c.xor(x[4], x[3]);
                x[5] = c.add(x[5], x[4]);
                let t = sh(c, x[5], x[4], false);
                x[6] = c.sub(x[6], t);
                x[7] = c.xor(x[7], x[6]);
                x[0] = c.add(x[0], x[7]);
                let t = sh(c, x[0], x[7], true);
                x[1] = c.sub(x[1], t);
                x[2] = c.xor(x[2], x[1]);
                x[3] = c.add(x[3], x[2]);
                let t = sh(c, x[3], x[2], false);
                x[4] = c.sub(x[4], t);
                x[5] = c.xor(x[5], x[4]);
                x[6] = c.add(x[6], x[5]);
                let t = c.xor(x[6], k2);
                x[7] = c.sub(x[7], t);
            }
        }
        let a = c.xor(v[0], h[0]);
        let b = c.sub(v[1], h[1]);
        let d = c.add(v[2], h[2]);
        vec![a, b, d]
    })
}
// ---------------------------------------------------------------- Whirlpool
fn gf_mul(a: u32, b: u32) -> u32 {
    let mut r = 0;
    for i in 0..8 {
        if b >> i & 1 == 1 {
            r ^= a << i;
        }
    }
    for i in (8..16).rev() {
        if r >> i & 1 == 1 {
            r ^= 0x11d << (i - 8);
        }
    }
    r
}
fn whirl_tables() -> Vec<Vec<u128>> {
    let cir = [1, 1, 4, 1, 8, 5, 2, 9];
    (0..8)
        .map(|t| {
            (0..256usize)
                .map(|x| {
                    let mut r = 0u128;
                    for k in 0..8 {
                        r = r << 8 | gf_mul(WHIRLPOOL_S[x] as u32, cir[(k + 8 - t) % 8]) as u128;
                    }
                    r
                })
                .collect()
        })
        .collect()
}
fn whirlpool_step() -> StepFn {
    let tabs = whirl_tables();
    Rc::new(move |c, h, blk, _| {
        let ts: Vec<u32> = tabs.iter().map(|t| c.table(8, 64, t.clone())).collect();
        let m = words_be(c, blk, 8);
        // gamma, pi (shift columns downward), theta (multiply rows by the circulant matrix)
        let rho = |c: &mut Ctx, s: &[N]| -> Vec<N> {
            (0..8)
                .map(|i| {
                    let mut r = c.c(64, 0);
                    for k in 0..8 {
                        let by = c.ext(s[(i + 8 - k) % 8], 56 - 8 * k as u32, 8);
                        let t = c.tab(ts[k], by);
                        r = c.xor(r, t);
                    }
                    r
                })
                .collect()
        };
        let mut k = h.to_vec();
        let mut st: Vec<N> = (0..8).map(|i| c.xor(m[i], k[i])).collect();
        for r in 0..10 {
            k = rho(c, &k);
            let mut rc = 0u128;
            for j in 0..8 {
                rc = rc << 8 | WHIRLPOOL_S[8 * r + j] as u128;
            }
            let rcn = c.c(64, rc);
            k[0] = c.xor(k[0], rcn);
            let t = rho(c, &st);
            st = (0..8).map(|i| c.xor(t[i], k[i])).collect();
        }
        (0..8).map(|i| xor!(c, h[i], st[i], m[i])).collect()
    })
}
// ---------------------------------------------------------------- BLAKE
fn blake1_compress(c: &mut Ctx, h: &[N], blk: &[N], t: N, big: bool) -> Vec<N> {
    // t: bit counter, 128 bit
    let (wb, bits, rounds) = if big { (8, 64, 16) } else { (4, 32, 14) };
    let k: Vec<u64> = if big { BLAKE_C64.to_vec() } else { u32s(&BLAKE_C32) };
    let rot: [u32; 4] = if big { [32, 25, 16, 11] } else { [16, 12, 8, 7] };
    let m = words_be(c, blk, wb);
    let kn: Vec<N> = k.iter().map(|x| c.c(bits, *x as u128)).collect();
    let t0 = c.ext(t, 0, bits);
    let t1 = c.ext(t, bits, bits);
    let mut v = h.to_vec();
    v.extend_from_slice(&kn[..4]);
    for (i, x) in [t0, t0, t1, t1].iter().enumerate() {
        let y = c.xor(*x, kn[4 + i]);
        v.push(y);
    }
    for r in 0..rounds {
        let s = &BLAKE_SIGMA[r % 10];
        for i in 0..8 {
            let q: [usize; 4] = if i < 4 { [i, 4 + i, 8 + i, 12 + i] } else { [i - 4, 4 + (i - 3) % 4, 8 + (i - 2) % 4, 12 + (i - 1) % 4] };
            let (a, b, d, e) = (q[0], q[1], q[2], q[3]);
            let x = c.xor(m[s[2 * i]], kn[s[2 * i + 1]]);
            v[a] = sum!(c, v[a], v[b], x);
            let y = c.xor(v[e], v[a]);
            v[e] = c.rotr(y, rot[0]);
            v[d] = c.add(v[d], v[e]);
            let y = c.xor(v[b], v[d]);
            v[b] = c.rotr(y, rot[1]);
            let x = c.xor(m[s[2 * i + 1]], kn[s[2 * i]]);
            v[a] = sum!(c, v[a], v[b], x);
            let y = c.xor(v[e], v[a]);
            v[e] = c.rotr(y, rot[2]);
            v[d] = c.add(v[d], v[e]);
            let y = c.xor(v[b], v[d]);
            v[b] = c.rotr(y, rot[3]);
        }
    }
    (0..8).map(|i| xor!(c, h[i], v[i], v[i + 8])).collect()
}
fn blake1(name: &str, iv: Vec<u64>, big: bool, full: bool, outlen: usize) -> Spec {
    let (b, w) = if big { (128usize, 64) } else { (64, 32) };
    let lenb = b / 8;
    Spec {
        name: name.into(),
        b,
        lazy: false,
        widths: vec![w; 8],
        fwidths: vec![w; 8],
        iv: fixed_iv(w, iv),
        step: Rc::new(move |c, h, blk, cnt| {
            let bb = c.c(128, b as u128);
            let t = c.add(cnt, bb);
            let t = c.shl_c(t, 3);
            blake1_compress(c, h, blk, t, big)
        }),
        fin: Rc::new(move |c, h, tail, total| {
            let n = tail.len();
            let z = c.c(8, 0);
            let mut m = tail.to_vec();
            m.push(c.c(8, 0x80));
            while (m.len() + lenb) % b != 0 {
                m.push(z);
            }
            if full {
                let e = m.len() - 1;
                let one = c.c(8, 1);
                m[e] = c.or(m[e], one);
            }
            let bits = c.shl_c(total, 3);
            let lf = c.ext(bits, 0, 8 * lenb as u32);
            let lf = bytes_be(c, lf);
            m.extend(lf);
            let zero = c.c(128, 0);
            let mut w = h.to_vec();
            // the counter is the number of message bits hashed so far, zero for a block without message bits
            for (i, blk) in m.chunks(b).enumerate() {
                let t = if i == 0 && n > 0 { bits } else { zero };
                w = blake1_compress(c, &w, blk, t, big);
            }
            w
        }),
        out: out_be(outlen),
        outlen,
        inj: None,
        max_bytes_log2: if big { 125 } else { 61 },
    }
}
fn blake2(name: &str, big: bool) -> Spec {
    let (b, w) = if big { (128usize, 64u32) } else { (64, 32) };
    let outlen = b / 2;
    let ivb: Vec<u64> = if big { IV512.to_vec() } else { u32s(&IV256) };
    let iv0 = ivb.clone();
    let compress = move |c: &mut Ctx, h: &[N], blk: &[N], t: N, last: bool| -> Vec<N> {
        let rounds = if big { 12 } else { 10 };
        let rot: [u32; 4] = if big { [32, 24, 16, 63] } else { [16, 12, 8, 7] };
        let m = words_le(c, blk, b / 16);
        let mut v = h.to_vec();
        v.extend(consts(c, w, &ivb));
        let t0 = c.ext(t, 0, w);
        let t1 = c.ext(t, w, w);
        v[12] = c.xor(v[12], t0);
        v[13] = c.xor(v[13], t1);
        if last {
            v[14] = c.not(v[14]);
        }
        for r in 0..rounds {
            let s = &BLAKE_SIGMA[r % 10];
            for i in 0..8 {
                let q: [usize; 4] = if i < 4 { [i, 4 + i, 8 + i, 12 + i] } else { [i - 4, 4 + (i - 3) % 4, 8 + (i - 2) % 4, 12 + (i - 1) % 4] };
                let (a, bb, d, e) = (q[0], q[1], q[2], q[3]);
                v[a] = sum!(c, v[a], v[bb], m[s[2 * i]]);
                let y = c.xor(v[e], v[a]);
                v[e] = c.rotr(y, rot[0]);
                v[d] = c.add(v[d], v[e]);
                let y = c.xor(v[bb], v[d]);
                v[bb] = c.rotr(y, rot[1]);
                v[a] = sum!(c, v[a], v[bb], m[s[2 * i + 1]]);
                let y = c.xor(v[e], v[a]);
                v[e] = c.rotr(y, rot[2]);
                v[d] = c.add(v[d], v[e]);
                let y = c.xor(v[bb], v[d]);
                v[bb] = c.rotr(y, rot[3]);
            }
        }
        (0..8).map(|i| xor!(c, h[i], v[i], v[i + 8])).collect()
    };
    let compress = Rc::new(compress);
    let c2 = compress.clone();
    Spec {
        name: name.into(),
        b,
        lazy: true,
        widths: vec![w; 8],
        fwidths: vec![w; 8],
        iv: Rc::new(move |c, _| {
            let mut v = consts(c, w, &iv0);
            let p = c.c(w, 0x01010000 ^ outlen as u128);
            v[0] = c.xor(v[0], p);
            v
        }),
        step: Rc::new(move |c, h, blk, cnt| {
            let bb = c.c(128, b as u128);
            let t = c.add(cnt, bb);
            compress(c, h, blk, t, false)
        }),
        fin: Rc::new(move |c, h, tail, total| {
            let mut m = tail.to_vec();
            let z = c.c(8, 0);
            m.resize(b, z);
            c2(c, h, &m, total, true)
        }),
        out: out_le(outlen),
        outlen,
        inj: None,
        max_bytes_log2: if big { 127 } else { 64 },
    }
}
// ---------------------------------------------------------------- CRC-32, FNV
fn crc32() -> Spec {
    Spec {
        name: "CRC_32".into(),
        b: 1,
        lazy: false,
        widths: vec![32],
        fwidths: vec![32],
        iv: fixed_iv(32, vec![0xffffffff]),
        step: Rc::new(|c, h, blk, _| {
            let b = c.zext(blk[0], 32);
            let mut r = c.xor(h[0], b);
            let tab = c.table(1, 32, vec![0, 0xedb88320]);
            for _ in 0..8 {
                let lo = c.ext(r, 0, 1);
                let s = c.lshr_c(r, 1);
                let p = c.tab(tab, lo);
                r = c.xor(s, p);
            }
            vec![r]
        }),
        fin: Rc::new(|c, h, _, _| vec![c.not(h[0])]),
        out: out_be(4),
        outlen: 4,
        inj: None,
        max_bytes_log2: 125,
    }
}
fn fnv(name: &str, w: u32, variant: u32) -> Spec {
    let (basis, prime): (u64, u128) = if w == 32 { (0x811c9dc5, 0x01000193) } else { (0xcbf29ce484222325, 0x100000001b3) };
    let basis = if variant == 0 { 0 } else { basis };
    Spec {
        name: name.into(),
        b: 1,
        lazy: false,
        widths: vec![w],
        fwidths: vec![w],
        iv: fixed_iv(w, vec![basis]),
        step: Rc::new(move |c, h, blk, _| {
            let b = c.zext(blk[0], w);
            let p = c.c(w, prime);
            vec![if variant == 2 {
                let x = c.xor(h[0], b);
                c.mul(x, p)
            } else {
                let x = c.mul(h[0], p);
                c.xor(x, b)
            }]
        }),
        fin: Rc::new(|_, h, _, _| h.to_vec()),
        out: out_be(w as usize / 8),
        outlen: w as usize / 8,
        inj: None,
        max_bytes_log2: 125,
    }
}
// ---------------------------------------------------------------- SipHash
fn sip_round(c: &mut Ctx, v: &mut [N]) {
    v[0] = c.add(v[0], v[1]);
    v[1] = c.rotl(v[1], 13);
    v[1] = c.xor(v[1], v[0]);
    v[0] = c.rotl(v[0], 32);
    v[2] = c.add(v[2], v[3]);
    v[3] = c.rotl(v[3], 16);
    v[3] = c.xor(v[3], v[2]);
    v[0] = c.add(v[0], v[3]);
    v[3] = c.rotl(v[3], 21);
    v[3] = c.xor(v[3], v[0]);
    v[2] = c.add(v[2], v[1]);
    v[1] = c.rotl(v[1], 17);
    v[1] = c.xor(v[1], v[2]);
    v[2] = c.rotl(v[2], 32);
}
fn siphash(name: &str, cr: usize, dr: usize) -> Spec {
    let step: StepFn = Rc::new(move |c, h, blk, _| {
        let m = le(c, blk);
        let mut v = h.to_vec();
        v[3] = c.xor(v[3], m);
        for _ in 0..cr {
            sip_round(c, &mut v);
        }
        v[0] = c.xor(v[0], m);
        v
    });
    let st = step.clone();
    Spec {
        name: name.into(),
        b: 8,
        lazy: false,
        widths: vec![64; 4],
        fwidths: vec![64; 4],
        iv: Rc::new(|c, key| {
            let k0 = le(c, &key[..8]);
            let k1 = le(c, &key[8..16]);
            let k = consts(c, 64, &[0x736f6d6570736575, 0x646f72616e646f6d, 0x6c7967656e657261, 0x7465646279746573]);
            vec![c.xor(k0, k[0]), c.xor(k1, k[1]), c.xor(k0, k[2]), c.xor(k1, k[3])]
        }),
        step,
        fin: Rc::new(move |c, h, tail, total| {
            let mut m = tail.to_vec();
            let z = c.c(8, 0);
            m.resize(7, z);
            m.push(c.ext(total, 0, 8));
            let mut v = st(c, h, &m, total);
            let f = c.c(64, 0xff);
            v[2] = c.xor(v[2], f);
            for _ in 0..dr {
                sip_round(c, &mut v);
            }
            v
        }),
        out: Rc::new(|c, w| {
            let x = xor!(c, w[0], w[1], w[2], w[3]);
            bytes_be(c, x)
        }),
        outlen: 8,
        inj: None,
        max_bytes_log2: 125,
    }
}
// ---------------------------------------------------------------- Keccak
/// state words are indexed x + 5*y
pub fn keccak_f(c: &mut Ctx, a: &[N]) -> Vec<N> {
    let mut a = a.to_vec();
    for r in 0..24 {
        let cc: Vec<N> = (0..5).map(|x| xor!(c, a[x], a[x + 5], a[x + 10], a[x + 15], a[x + 20])).collect();
        let d: Vec<N> = (0..5)
            .map(|x| {
                let t = c.rotl(cc[(x + 1) % 5], 1);
                c.xor(cc[(x + 4) % 5], t)
            })
            .collect();
        for i in 0..25 {
            a[i] = c.xor(a[i], d[i % 5]);
        }
        let mut b = vec![a[0]; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = c.rotl(a[x + 5 * y], KECCAK_RHO[x][y]);
            }
        }
        for y in 0..5 {
            for x in 0..5 {
                let n = c.not(b[(x + 1) % 5 + 5 * y]);
                let t = c.and(n, b[(x + 2) % 5 + 5 * y]);
                a[x + 5 * y] = c.xor(b[x + 5 * y], t);
            }
        }
        let k = c.c(64, KECCAK_RC[r] as u128);
        a[0] = c.xor(a[0], k);
    }
    a
}
pub fn keccak(name: &str, rate: usize, pad: u128, outlen: usize) -> Spec {
    let step: StepFn = Rc::new(|c, h, blk, _| {
        let m = words_le(c, blk, 8);
        let mut a = h.to_vec();
        for (i, x) in m.iter().enumerate() {
            a[i] = c.xor(a[i], *x);
        }
        keccak_f(c, &a)
    });
    let st = step.clone();
    let long = outlen > rate;
    Spec {
        name: name.into(),
        b: rate,
        lazy: false,
        widths: vec![64; 25],
        // output longer than one block: the output bytes followed by the state they end with
        fwidths: if long { (0..outlen).map(|_| 8).chain((0..25).map(|_| 64)).collect() } else { vec![64; 25] },
        iv: fixed_iv(64, vec![0; 25]),
        step,
        fin: Rc::new(move |c, h, tail, total| {
            let mut m = tail.to_vec();
            m.push(c.c(8, pad));
            let z = c.c(8, 0);
            m.resize(rate, z);
            let x = c.c(8, 0x80);
            m[rate - 1] = c.xor(m[rate - 1], x);
            let mut a = st(c, h, &m, total);
            if !long {
                return a;
            }
            let mut v = vec![];
            loop {
                let mut b: Vec<N> = a.iter().flat_map(|x| bytes_le(c, *x)).collect();
                b.truncate(rate);
                v.extend(b);
                if v.len() >= outlen {
                    break;
                }
                a = keccak_f(c, &a);
            }
            v.truncate(outlen);
            v.extend(a);
            v
        }),
        out: Rc::new(move |c, w| {
            if long {
                return w[..outlen].to_vec();
            }
            let mut b: Vec<N> = w.iter().flat_map(|x| bytes_le(c, *x)).collect();
            b.truncate(outlen);
            b
        }),
        outlen,
        inj: if long { Some(Rc::new(move |w| w[outlen..].to_vec())) } else { None },
        max_bytes_log2: 125,
    }
}

/// parameter strings in class ids: "-" empty, "@k" k generated bytes, otherwise the text itself ('_' is a space)
pub fn text(s: &str) -> Vec<u8> {
    if s == "-" {
        vec![]
    } else if let Some(k) = s.strip_prefix('@') {
        (0..k.parse::<usize>().unwrap_or(0)).map(|i| (i * 37 + 200) as u8).collect()
    } else {
        s.replace('_', " ").into_bytes()
    }
}
/// left_encode of SP 800-185
pub fn left_encode(v: u64) -> Vec<u8> {
    let n = (8 - v.leading_zeros() as usize / 8).max(1);
    let mut o = vec![n as u8];
    o.extend(&v.to_be_bytes()[8 - n..]);
    o
}
pub fn right_encode(v: u64) -> Vec<u8> {
    let mut o = left_encode(v);
    o.rotate_left(1);
    o
}
/// a parameter string of a class id: "#k" stands for k arbitrary bytes
pub fn param(s: &str) -> Result<Vec<u8>, usize> {
    match s.strip_prefix('#') {
        Some(k) => Err(k.parse().unwrap_or(0)),
        None => Ok(text(s)),
    }
}
/// bytepad(encode_string(N) || encode_string(S), rate); None: the next parameter byte
pub fn cshake_prefix(rate: usize, n: &Result<Vec<u8>, usize>, s: &Result<Vec<u8>, usize>) -> Vec<Option<u8>> {
    let mut v: Vec<Option<u8>> = left_encode(rate as u64).into_iter().map(Some).collect();
    for x in [n, s] {
        let len = x.as_ref().map_or_else(|k| *k, |b| b.len());
        v.extend(left_encode(8 * len as u64).into_iter().map(Some));
        match x {
            Ok(b) => v.extend(b.iter().map(|x| Some(*x))),
            Err(k) => v.extend(vec![None; *k]),
        }
    }
    v.resize(v.len().div_ceil(rate) * rate, Some(0));
    v
}
/// cSHAKE: with both strings empty it is SHAKE, otherwise the padded prefix is absorbed first
fn cshake(id: &str, rate: usize, d: usize, n: &str, s: &str) -> Option<Spec> {
    let (n, s) = (param(n), param(s));
    let none = |x: &Result<Vec<u8>, usize>| x.as_ref().map_or_else(|k| *k == 0, |b| b.is_empty());
    if none(&n) && none(&s) {
        return Some(keccak(id, rate, 0x1f, d));
    }
    let mut k = keccak(id, rate, 0x04, d);
    let pre = cshake_prefix(rate, &n, &s);
    let step = k.step.clone();
    k.iv = Rc::new(move |c, key| {
        let mut h = consts(c, 64, &[0; 25]);
        let mut next = 0;
        for b in pre.chunks(rate) {
            let blk: Vec<N> = b
                .iter()
                .map(|x| match x {
                    Some(v) => c.c(8, *v as u128),
                    None => {
                        next += 1;
                        key[next - 1]
                    }
                })
                .collect();
            let z = c.c(128, 0);
            h = step(c, &h, &blk, z);
        }
        h
    });
    Some(k)
}

pub fn get(name: &str) -> Option<Spec> {
    let sha1iv: Vec<u64> = vec![0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let rmd = |n: usize| -> Vec<u64> {
        match n {
            256 => {
                let mut v = sha1iv[..4].to_vec();
                v.extend([0x76543210, 0xfedcba98, 0x89abcdef, 0x01234567]);
                v
            }
            320 => {
                let mut v = sha1iv.clone();
                v.extend([0x76543210, 0xfedcba98, 0x89abcdef, 0x01234567, 0x3c2d1e0f]);
                v
            }
            _ => sha1iv[..n / 32].to_vec(),
        }
    };
    let tig: Vec<u64> = vec![0x0123456789abcdef, 0xfedcba9876543210, 0xf096a5b4c3b2e187];
    Some(match name {
        "SHA1" => md(name, 64, 32, sha1iv.clone(), sha1_step(), 0x80, 8, true, 20),
        "SHA2_224" => md(name, 64, 32, u32s(&IV224), sha2_step(false), 0x80, 8, true, 28),
        "SHA2_256" => md(name, 64, 32, u32s(&IV256), sha2_step(false), 0x80, 8, true, 32),
        "SHA2_384" => md(name, 128, 64, IV384.to_vec(), sha2_step(true), 0x80, 16, true, 48),
        "SHA2_512" => md(name, 128, 64, IV512.to_vec(), sha2_step(true), 0x80, 16, true, 64),
        "SHA2_512_224" => md(name, 128, 64, IV512_224.to_vec(), sha2_step(true), 0x80, 16, true, 28),
        "SHA2_512_256" => md(name, 128, 64, IV512_256.to_vec(), sha2_step(true), 0x80, 16, true, 32),
        "MD2" => md2(),
        "MD4" => Spec { max_bytes_log2: 125, ..md(name, 64, 32, sha1iv[..4].to_vec(), md4_step(), 0x80, 8, false, 16) },
        "MD5" => Spec { max_bytes_log2: 125, ..md(name, 64, 32, sha1iv[..4].to_vec(), md5_step(), 0x80, 8, false, 16) },
        "RIPEMD_128" => md(name, 64, 32, rmd(128), ripemd_step(128), 0x80, 8, false, 16),
        "RIPEMD_160" => md(name, 64, 32, rmd(160), ripemd_step(160), 0x80, 8, false, 20),
        "RIPEMD_256" => md(name, 64, 32, rmd(256), ripemd_step(256), 0x80, 8, false, 32),
        "RIPEMD_320" => md(name, 64, 32, rmd(320), ripemd_step(320), 0x80, 8, false, 40),
        "HAS_160" => md(name, 64, 32, sha1iv.clone(), has160_step(), 0x80, 8, false, 20),
        "SM3" => md(
            name,
            64,
            32,
            vec![0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e],
            sm3_step(),
            0x80,
            8,
            true,
            32,
        ),
        "Tiger1_128" => md(name, 64, 64, tig, tiger_step(), 0x01, 8, false, 16),
        "Tiger1_160" => md(name, 64, 64, tig, tiger_step(), 0x01, 8, false, 20),
        "Tiger1_192" => md(name, 64, 64, tig, tiger_step(), 0x01, 8, false, 24),
        "Tiger2_128" => md(name, 64, 64, tig, tiger_step(), 0x80, 8, false, 16),
        "Tiger2_160" => md(name, 64, 64, tig, tiger_step(), 0x80, 8, false, 20),
        "Tiger2_192" => md(name, 64, 64, tig, tiger_step(), 0x80, 8, false, 24),
        "Whirlpool" => md(name, 64, 64, vec![0; 8], whirlpool_step(), 0x80, 32, true, 64),
        "Blake1_224" => blake1(name, u32s(&IV224), false, false, 28),
        "Blake1_256" => blake1(name, u32s(&IV256), false, true, 32),
        "Blake1_384" => blake1(name, IV384.to_vec(), true, false, 48),
        "Blake1_512" => blake1(name, IV512.to_vec(), true, true, 64),
        "Blake2" => blake2(name, true),
        "Blake2s" => blake2(name, false),
        "CRC_32" => crc32(),
        "FNV32_0" => fnv(name, 32, 0),
        "FNV32_1" => fnv(name, 32, 1),
        "FNV32_1a" => fnv(name, 32, 2),
        "FNV64_0" => fnv(name, 64, 0),
        "FNV64_1" => fnv(name, 64, 1),
        "FNV64_1a" => fnv(name, 64, 2),
        "SipHash" => siphash(name, 2, 4),
        "SipHash_4_8" => siphash(name, 4, 8),
        "SipHash_1_3" => siphash(name, 1, 3),
        "SHA3_224" => keccak(name, 144, 6, 28),
        "SHA3_256" => keccak(name, 136, 6, 32),
        "SHA3_384" => keccak(name, 104, 6, 48),
        "SHA3_512" => keccak(name, 72, 6, 64),
        _ => {
            let f: Vec<&str> = name.split(':').collect();
            if f.len() == 4 && f[0].starts_with("CSHAKE_") {
                return cshake(name, if f[0] == "CSHAKE_128" { 168 } else { 136 }, f[1].parse().ok()?, f[2], f[3]);
            }
            let (a, d) = name.rsplit_once(':')?;
            let d: usize = d.parse().ok()?;
            match a {
                "SHAKE_128" => keccak(name, 168, 0x1f, d),
                "SHAKE_256" => keccak(name, 136, 0x1f, d),
                "CSHAKEP_128" => keccak(name, 168, 0x04, d), // prefixed message
                "CSHAKEP_256" => keccak(name, 136, 0x04, d),
                _ => return None,
            }
        }
    })
}

/// concrete evaluation (oracle for the native replays)
pub fn digest(name: &str, key: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
    let s = get(name)?;
    let mut c = Ctx::new(1, 64);
    c.match_on = false;
    let kb: Vec<N> = key.iter().map(|b| c.c(8, *b as u128)).collect();
    let mut h = (s.iv)(&mut c, &kb);
    let n = msg.len();
    let blocks = if s.lazy { if n == 0 { 0 } else { (n - 1) / s.b } } else { n / s.b };
    let mut hv: Vec<u128>;
    let mut cx = c;
    for i in 0..blocks {
        let blk: Vec<N> = msg[i * s.b..(i + 1) * s.b].iter().map(|b| cx.c(8, *b as u128)).collect();
        let cnt = cx.c(128, (i * s.b) as u128);
        h = (s.step)(&mut cx, &h, &blk, cnt);
        if cx.nodes.len() > 1_000_000 {
            hv = h.iter().map(|x| cx.cval(*x).unwrap()).collect();
            let ws: Vec<u32> = h.iter().map(|x| cx.w(*x)).collect();
            cx = Ctx::new(1, 64);
            h = hv.iter().zip(ws).map(|(v, w)| cx.c(w, *v)).collect();
        }
    }
    let tail: Vec<N> = msg[blocks * s.b..].iter().map(|b| cx.c(8, *b as u128)).collect();
    let total = cx.c(128, n as u128);
    let f = (s.fin)(&mut cx, &h, &tail, total);
    let o = (s.out)(&mut cx, &f);
    Some(o.iter().map(|x| cx.cval(*x).expect("concrete") as u8).collect())
}
pub const ALL: &[&str] = &[
    "SHA1", "SHA2_224", "SHA2_256", "SHA2_384", "SHA2_512", "SHA2_512_224", "SHA2_512_256", "MD2", "MD4", "MD5", "RIPEMD_128", "RIPEMD_160", "RIPEMD_256", "RIPEMD_320", "HAS_160", "SM3", "Tiger1_128", "Tiger1_160",
    "Tiger1_192", "Tiger2_128", "Tiger2_160", "Tiger2_192", "Whirlpool", "Blake1_224", "Blake1_256", "Blake1_384", "Blake1_512", "Blake2", "Blake2s", "CRC_32", "FNV32_0", "FNV32_1", "FNV32_1a", "FNV64_0", "FNV64_1",
    "FNV64_1a", "SipHash", "SipHash_4_8", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512",
];
