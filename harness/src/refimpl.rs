//! Interpretation functions of the TLA+ specifications: plain trit-level transcriptions of
//! spec/Troika.tla, spec/Spongos.tla (machine), spec/Ring.tla and spec/Wots.tla.
//! Independent of the code under test.
use crate::rc::RC;
pub const RATE: usize = 486;
pub const W: usize = 729;

fn tables() -> &'static (Vec<[u8; 3]>, Vec<usize>, Vec<Vec<u8>>) {
    use std::sync::OnceLock;
    static T: OnceLock<(Vec<[u8; 3]>, Vec<usize>, Vec<Vec<u8>>)> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = vec![[0u8; 3]; 27];
        for i in 0..27u8 {
            let (a0, a1, a2) = (i % 3, i / 3 % 3, i / 9);
            let d = (a0 + 2) % 3; let e = (d * a1 + a2) % 3; let f = (e * a1 + d) % 3; let g = (e * f + a1) % 3;
            sbox[i as usize] = [g, f, e];
        }
        // src[new index] = old index, for shift rows then shift lanes
        const SH: [usize; 27] = [19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4];
        let mut src = vec![0; W];
        for s in 0..27 { for r in 0..3 { for c in 0..9 {
            let os = (s + 27 - SH[9 * r + c]) % 27;
            let oc = (c + 9 - 3 * r) % 9;
            src[27 * s + 9 * r + c] = 27 * os + 9 * r + oc;
        } } }
        let rc = RC.iter().map(|x| x.bytes().map(|b| b - b'0').collect()).collect();
        (sbox, src, rc)
    })
}
pub fn troika(st: &mut [u8]) { troika_rounds(st, 24) }
pub fn troika_rounds(st: &mut [u8], rounds: usize) {
    let (sbox, src, rc) = tables();
    let mut t = vec![0u8; W];
    let mut par = [0u8; 243];
    for round in 0..rounds {
        for k in (0..W).step_by(3) {
            let x = sbox[(st[k] + 3 * st[k + 1] + 9 * st[k + 2]) as usize];
            st[k] = x[0]; st[k + 1] = x[1]; st[k + 2] = x[2];
        }
        for i in 0..W { t[i] = st[src[i]]; }
        for s in 0..27 { for c in 0..9 { par[9 * s + c] = (t[27 * s + c] + t[27 * s + 9 + c] + t[27 * s + 18 + c]) % 3; } }
        for s in 0..27 { for c in 0..9 {
            let a = par[9 * s + (c + 8) % 9] + par[9 * ((s + 1) % 27) + (c + 1) % 9];
            for r in 0..3 { let i = 27 * s + 9 * r + c; st[i] = (t[i] + a) % 3; }
            let i = 27 * s + c; st[i] = (st[i] + rc[round][9 * s + c]) % 3;
        } }
    }
}

/// Reference duplex (spec/Spongos.tla with RATE = 486).
#[derive(Clone, PartialEq)]
pub struct RefSp { pub st: Vec<u8>, pub out: Vec<u8>, pub pos: usize }
impl RefSp {
    pub fn new() -> Self { RefSp { st: vec![0; W], out: vec![0; RATE], pos: 0 } }
    pub fn commit(&mut self) {
        if self.pos == 0 { return }
        self.st[..self.pos].copy_from_slice(&self.out[..self.pos]);
        troika(&mut self.st);
        self.out.copy_from_slice(&self.st[..RATE]);
        self.pos = 0;
    }
    fn step(&mut self) { self.pos += 1; if self.pos == RATE { self.commit() } }
    pub fn absorb(&mut self, x: &[u8]) { for &t in x { self.out[self.pos] = t; self.step() } }
    pub fn squeeze(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| { let t = self.out[self.pos]; self.out[self.pos] = 0; self.step(); t }).collect()
    }
    pub fn encr(&mut self, x: &[u8]) -> Vec<u8> {
        x.iter().map(|&t| { let y = (t + self.out[self.pos]) % 3; self.out[self.pos] = t; self.step(); y }).collect()
    }
    pub fn decr(&mut self, y: &[u8]) -> Vec<u8> {
        y.iter().map(|&t| { let x = (t + 3 - self.out[self.pos]) % 3; self.out[self.pos] = x; self.step(); x }).collect()
    }
    pub fn join(&mut self, o: &mut RefSp) { let x = o.squeeze(243); self.absorb(&x) }
    pub fn hash(parts: &[&[u8]], n: usize) -> Vec<u8> {
        let mut s = RefSp::new(); for p in parts { s.absorb(p) } s.commit(); s.squeeze(n)
    }
}

/// Reference Troika sponge with rate 243.
pub struct RefTroikaSponge { pub st: Vec<u8>, pub idx: usize }
impl RefTroikaSponge {
    pub fn new() -> Self { RefTroikaSponge { st: vec![0; W], idx: 0 } }
    pub fn absorb(&mut self, x: &[u8]) {
        for &t in x {
            if self.idx == 0 { for k in 0..243 { self.st[k] = 0 } }
            self.st[self.idx] = t; self.idx += 1;
            if self.idx == 243 { troika(&mut self.st); self.idx = 0 }
        }
    }
    pub fn finalize(&mut self) { self.absorb(&[1]); if self.idx != 0 { troika(&mut self.st); self.idx = 0 } }
    pub fn squeeze(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| { let t = self.st[self.idx]; self.idx += 1; if self.idx == 243 { troika(&mut self.st); self.idx = 0 } t }).collect()
    }
}

// ---- balanced ternary
pub fn bt(mut v: i64, n: usize) -> Vec<u8> {
    (0..n).map(|_| { let mut r = v.rem_euclid(3); v = v.div_euclid(3); if r == 2 { v += 1; r = 2 } r as u8 }).collect()
}
pub fn unbt(t: &[u8]) -> i64 { t.iter().rev().fold(0i64, |a, &x| a * 3 + if x == 2 { -1 } else { x as i64 }) }

// ---- ring Z_q[x]/(x^1024+1), spec/Ring.tla
pub const N: usize = 1024;
pub const Q: i64 = 12289;
pub type Poly = Vec<i64>;
pub fn center(x: i64) -> i64 { let r = x.rem_euclid(Q); if r > Q / 2 { r - Q } else { r } }
pub fn pmul(a: &[i64], b: &[i64]) -> Poly {
    let mut r = vec![0i64; N];
    for i in 0..N { if a[i] == 0 { continue } let x = a[i];
        for j in 0..N - i { r[i + j] += x * b[j] }
        for j in N - i..N { r[i + j - N] -= x * b[j] }
    }
    r.iter().map(|&x| center(x)).collect()
}
pub fn padd(a: &[i64], b: &[i64]) -> Poly { (0..N).map(|i| center(a[i] + b[i])).collect() }
pub fn psub(a: &[i64], b: &[i64]) -> Poly { (0..N).map(|i| center(a[i] - b[i])).collect() }
pub fn small(t: &[u8]) -> Poly { t.iter().map(|&x| if x == 2 { -1 } else { x as i64 }).collect() }
pub fn ptrits(a: &[i64]) -> Vec<u8> { a.iter().flat_map(|&x| bt(center(x), 9)).collect() }
pub fn pfrom(t: &[u8]) -> Option<Poly> {
    let mut r = Vec::new();
    for k in 0..N { let v = unbt(&t[9 * k..9 * k + 9]); if v < -(Q - 1) / 2 || v > (Q - 1) / 2 { return None } r.push(v) }
    Some(r)
}
/// round to the nearest multiple of 3: residue of x mod 3 in {-1,0,1}
pub fn pmod3(a: &[i64]) -> Vec<u8> { a.iter().map(|&x| center(x).rem_euclid(3) as u8).collect() }
/// Capsule of spec/Ntru.tla: returns (y, sponge after).
pub fn kem_encr(s: &mut RefSp, h: &[i64], r: &[u8], k: &[u8]) -> Vec<u8> {
    let rh = pmul(&small(r), h);
    s.absorb(&ptrits(&rh)); s.commit();
    let mut ae = s.encr(k); ae.extend(s.squeeze(N - 243));
    ptrits(&padd(&rh, &small(&ae)))
}

// ---- WOTS / MSS, spec/Wots.tla and spec/Mss.tla
pub fn chain(x: &[u8], n: usize) -> Vec<u8> { let mut h = x.to_vec(); for _ in 0..n { h = RefSp::hash(&[&h], h.len()) } h }
/// the 81 chain positions (0..26) of a hash value
pub fn wots_digits(hash: &[u8]) -> Vec<usize> {
    let mut d: Vec<i64> = (0..78).map(|i| unbt(&hash[3 * i..3 * i + 3])).collect();
    let t = -d.iter().sum::<i64>();
    let c = bt(t, 9);
    for i in 0..3 { d.push(unbt(&c[3 * i..3 * i + 3])) }
    d.iter().map(|x| (x + 13) as usize).collect()
}
pub fn wots_sign(sk: &[u8], hash: &[u8]) -> Vec<u8> {
    wots_digits(hash).iter().enumerate().flat_map(|(i, &n)| chain(&sk[162 * i..162 * i + 162], n)).collect()
}
pub fn wots_pk(sk: &[u8]) -> Vec<u8> {
    let e: Vec<u8> = (0..81).flat_map(|i| chain(&sk[162 * i..162 * i + 162], 26)).collect();
    RefSp::hash(&[&e], 243)
}
pub fn wots_recover(hash: &[u8], sig: &[u8]) -> Vec<u8> {
    let e: Vec<u8> = wots_digits(hash).iter().enumerate().flat_map(|(i, &n)| chain(&sig[162 * i..162 * i + 162], 26 - n)).collect();
    RefSp::hash(&[&e], 243)
}
pub fn prng(key: &[u8], nonces: &[&[u8]], n: usize) -> Vec<u8> {
    let mut v: Vec<&[u8]> = vec![key]; v.extend_from_slice(nonces);
    RefSp::hash(&v, n)
}
pub fn mss_leaf_sk(key: &[u8], nonce: &[u8], i: usize) -> Vec<u8> { prng(key, &[nonce, &bt(i as i64, 18)], 81 * 162) }
/// all levels of the tree, leaves first
pub fn mss_tree(leaves: Vec<Vec<u8>>) -> Vec<Vec<Vec<u8>>> {
    let mut lv = vec![leaves];
    while lv.last().unwrap().len() > 1 {
        let l = lv.last().unwrap();
        let n = (0..l.len() / 2).map(|i| RefSp::hash(&[&l[2 * i], &l[2 * i + 1]], 243)).collect();
        lv.push(n);
    }
    lv
}
pub fn mss_sig(key: &[u8], nonce: &[u8], tree: &[Vec<Vec<u8>>], skn: usize, hash: &[u8]) -> Vec<u8> {
    let h = tree.len() - 1;
    let mut s = bt(h as i64, 4); s.extend(bt(skn as i64, 14));
    s.extend(wots_sign(&mss_leaf_sk(key, nonce, skn), hash));
    let mut i = skn;
    for d in 0..h { s.extend_from_slice(&tree[d][i ^ 1]); i /= 2 }
    s
}
/// recover: Some((pk, size)) or None
pub fn mss_recover(hash: &[u8], sig: &[u8]) -> Option<(Vec<u8>, usize)> {
    if sig.len() < 18 { return None }
    let (h, k) = (unbt(&sig[..4]), unbt(&sig[4..18]));
    if h < 0 || k < 0 || (h < 40 && k >= 1i64 << h) { return None }
    let n = 18 + 81 * 162 + 243 * h as usize;
    if sig.len() < n { return None }
    let mut p = wots_recover(hash, &sig[18..18 + 81 * 162]);
    let mut i = k;
    for d in 0..h as usize {
        let a = &sig[18 + 81 * 162 + 243 * d..18 + 81 * 162 + 243 * (d + 1)];
        p = if i % 2 == 0 { RefSp::hash(&[&p, a], 243) } else { RefSp::hash(&[a, &p], 243) };
        i /= 2;
    }
    Some((p, n))
}
/// size_t codeword as digits (head and tail trytes), spec/Codec.tla
pub fn sizet(mut v: u64) -> Vec<u8> {
    let mut d = Vec::new();
    while v != 0 { let mut r = (v % 27) as i64; v /= 27; if r > 13 { r -= 27; v += 1 } d.push(r) }
    let mut o = bt(d.len() as i64, 3); for x in d { o.extend(bt(x, 3)) } o
}
/// no root of x^1024+1 is a root of p
pub fn invertible(p: &[i64]) -> bool {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<i64>> = OnceLock::new();
    let pw = T.get_or_init(|| { let mut v = vec![1i64]; for i in 1..2 * N { let x = v[i - 1] * 7 % Q; v.push(x) } v });
    (0..N).all(|j| (0..N).map(|i| p[i] * pw[(2 * j + 1) * i % (2 * N)]).sum::<i64>() % Q != 0)
}
