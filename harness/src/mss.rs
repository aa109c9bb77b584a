//! Replay of spec/Mss.tla, spec/MssSweep.tla and spec/WotsGen.tla.
use crate::common::*;
use crate::json::*;
use crate::refimpl;
use iota_mam::mss::mt::{APath, GenLeaf, MergeNodes, TraversableMerkleTree};
use iota_mam::mss::{self, PrivateKeyMTComplete, PrivateKeyMTTraversal, PrivateKeyT, PublicKey};
use iota_mam::pb3::{self, Absorb};
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::Trits;
use iota_mam::wots;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone)]
pub enum Key { C(PrivateKeyMTComplete), V(PrivateKeyMTTraversal) }
macro_rules! on { ($s:expr, $t:ident => $e:expr) => { match $s { Key::C($t) => $e, Key::V($t) => $e } } }
impl Key {
    pub fn gen(kind: &str, prng: &PRNG, nonce: &Trits, h: usize) -> Key {
        if kind == "complete" { Key::C(PrivateKeyMTComplete::gen(prng, nonce.slice(), h)) } else { Key::V(PrivateKeyMTTraversal::gen(prng, nonce.slice(), h)) }
    }
    pub fn pk(&self) -> &PublicKey { on!(self, k => k.public_key()) }
    pub fn skn(&self) -> usize { on!(self, k => k.skn()) }
    pub fn left(&self) -> usize { on!(self, k => k.skn_left()) }
    pub fn height(&self) -> usize { on!(self, k => k.height()) }
    pub fn next(&mut self) -> bool { on!(self, k => k.next()) }
    pub fn sign(&self, h: &[u8]) -> Vec<u8> {
        let hash = tr(h);
        let mut s = tr(&vec![1; mss::sig_size(self.height())]);
        on!(self, k => k.sign(hash.slice(), s.slice_mut()));
        tvt(&s)
    }
}
pub fn pk_trits(pk: &PublicKey) -> Vec<u8> {
    let mut b = Trits::zero(mss::PK_SIZE);
    let mut s = Spongos::init();
    { let mut m = b.slice_mut(); pk.wrap_absorb(&mut s, &mut m); }
    tvt(&b)
}
pub fn prng_key(g: usize) -> Vec<u8> { let mut k = atom("mss prng", 243); if g == 2 { k[0] = (k[0] + 1) % 3 } if g > 2 { k = atom(&format!("mss prng {}", g), 243) } k }
/// Nonces 2i - 1 and 2i, up to 12, differ in one trit only.
pub fn nonce(n: usize) -> Vec<u8> {
    if n == 0 || n > 12 { return atom(&format!("mss nonce {}", n), 30 + n) }
    let i = (n - 1) / 2;
    let mut v = if i == 0 { atom("mss nonce", 81) } else { atom(&format!("mss nonce {}", i), [81, 33, 243, 250, 500, 244][i]) };
    let at = if i == 5 { 0 } else { v.len() - 1 };
    if n % 2 == 0 { v[at] = (v[at] + 1) % 3 }
    v
}
pub fn fresh(kind: &str, g: usize, n: usize, h: usize) -> Key {
    static CACHE: Mutex<Option<HashMap<(String, usize, usize, usize), Arc<OnceLock<Key>>>>> = Mutex::new(None);
    let e = CACHE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).entry((kind.to_string(), g, n, h)).or_default().clone();
    e.get_or_init(|| Key::gen(kind, &PRNG::init(tr(&prng_key(g)).slice()), &tr(&nonce(n)), h)).clone()
}
pub fn value(v: usize) -> Vec<u8> {
    match v { 1 => vec![2; 234], 2 => vec![1; 234], 3 => vec![0; 234], v => { let mut x = atom("mss value 4", 234); let i = 50 * (v - 4); if v > 4 { x[i] = (x[i] + 1) % 3 } x } }
}
fn alter(sig: &[u8], a: &J) -> Vec<u8> {
    let mut s = sig.to_vec();
    let g = |k: &str| a.get(k).u();
    let bump = |s: &mut Vec<u8>, i: usize, d: usize| s[i] = (s[i] + d as u8) % 3;
    match a.get("a").s() {
        "none" => {}
        "cut" => { let n = s.len().saturating_sub(g("n")); s.truncate(n) }
        "extend" => { let n = g("n"); s.extend(atom("mss tail", n)) }
        "height" => bump(&mut s, g("p"), g("s")),
        "number" => bump(&mut s, 4 + g("p"), g("s")),
        "part" => bump(&mut s, 18 + 162 * g("p") + g("q"), g("s")),
        "node" => bump(&mut s, 18 + 162 * 81 + 243 * g("d") + g("q"), g("s")),
        "fill" => {
            let (o, e) = (18, 18 + 162 * 81);
            let (i, j) = match a.get("w").s() { "part" => (o + 162 * g("p"), o + 162 * (g("p") + 1)), "parts" => (o, e), "path" => (e, s.len()), _ => (o, s.len()) };
            s[i..j].fill(g("s") as u8)
        }
        "header" => { s[..4].copy_from_slice(&refimpl::bt(a.get("hh").n(), 4)); s[4..18].copy_from_slice(&refimpl::bt(a.get("kk").n(), 14)) }
        "swap" => { let (p, q) = (18 + 162 * g("p"), 18 + 162 * g("q")); for i in 0..162 { s[p + i] = sig[q + i]; s[q + i] = sig[p + i] } }
        "swapnode" => { let o = 18 + 162 * 81; let (p, q) = (o + 243 * g("d"), o + 243 * g("q")); for i in 0..243 { s[p + i] = sig[q + i]; s[q + i] = sig[p + i] } }
        x => panic!("harness: alteration {}", x),
    }
    s
}
fn prog(c: &J, prop: &str) -> R {
    let mut ks: Vec<Key> = vec![];
    let mut pks: HashMap<(usize, usize, usize), Vec<u8>> = HashMap::new();
    let mut sigs: Vec<Vec<u8>> = vec![];
    let mut parts: HashMap<Vec<u8>, ((usize, usize), usize, usize)> = HashMap::new();
    for (n, r) in c.get("hist").a().iter().enumerate() {
        let (op, o, x) = (r.get("op").s(), r.get("obs"), r.get("x").u() - 1);
        let (kind, h, k) = (o.get("kind").s(), o.get("h").u(), o.get("k").u());
        let id = (o.get("g").u(), o.get("nonce").u(), h);
        let what = format!("op {} {} ({} key of height {} at number {})", n + 1, op, kind, h, k);
        stat(&format!("op_{}", op), 1);
        let mut touched = x;
        match op {
            "gen" => ks.push(fresh(kind, id.0, id.1, h)),
            "next" => { let r2 = ks[x].next(); if prop == "C06" { eq(&format!("{}: a key is left", what), r2, r.get("r").b())? } }
            "clone" => { let y = ks[x].clone(); ks.push(y); touched = ks.len() - 1 }
            "sign" => {
                let v = value(r.get("v").u());
                let s = ks[x].sign(&v);
                if prop == "C06" {
                    eq(&format!("{}: key number in the signature", what), refimpl::unbt(&s[4..18]), k as i64)?;
                    eqv(&format!("{}: signing again", what), &ks[x].sign(&v), &s)?;
                    // signing the all-minus value reveals the one-time key itself
                    let m = ks[x].sign(&value(1));
                    for p in 0..81 {
                        let e = parts.entry(m[18 + 162 * p..180 + 162 * p].to_vec()).or_insert(((id.0, id.1), k, p));
                        eq(&format!("{}: part {} of the one-time key was used before as", what, p), *e, ((id.0, id.1), k, p))?;
                    }
                } else { eq(&format!("{}: signature size", what), s.len(), 18 + 81 * 162 + 243 * h)? }
                sigs.push(s);
            }
            "refuse" => if prop == "C06" {
                let v = value(r.get("v").u());
                let key = &ks[x];
                if guarded(|| key.sign(&v)).is_ok() { return Err(format!("{}: an exhausted key signed", what)) }
            },
            "verify" => if prop == "C07" {
                let a = r.get("alter");
                let s = alter(&sigs[r.get("y").u() - 1], a);
                let hash = tr(&value(r.get("v").u()));
                let st = tr(&s);
                let what = format!("{}, signature by key {} number {} with {}", what, r.get("signer").show(), r.get("sigk").n(), a.show());
                let pk = ks[x].pk();
                let ok = pk.verify(hash.slice(), st.slice());
                eq(&format!("{}: verifies", what), ok, r.get("good").b())?;
                let sg = r.get("signer");
                let signer = fresh("complete", sg.get("g").u(), sg.get("nonce").u(), sg.get("h").u());
                let size = mss::sig_size(sg.get("h").u());
                match (r.get("recover").s(), PublicKey::recover(hash.slice(), st.slice())) {
                    ("signer", Some((p, n))) => { ensure(p == *signer.pk(), &format!("{}: recovered key is not the signer's", what))?; eq(&format!("{}: recovered size", what), n, size)? }
                    ("signer", None) => return Err(format!("{}: nothing recovered", what)),
                    ("none", Some(_)) => return Err(format!("{}: a key recovered", what)),
                    ("other", Some((p, _))) => ensure(p != *signer.pk(), &format!("{}: the signer's key recovered", what))?,
                    _ => {}
                }
                stat("verifications", 1);
            },
            x => panic!("harness: mss op {}", x),
        }
        if prop == "C06" {
            let y = &ks[touched];
            eq(&format!("{}: number and keys left", what), (y.skn(), y.left(), y.height()), (k, o.get("left").u(), h))?;
            eq(&format!("{}: number + left", what), y.skn() + y.left(), 1 << h)?;
            eq(&format!("{}: sizes of a path and a signature", what), (mss::apath_size(h), mss::sig_size(h)), (243 * h, 18 + 162 * 81 + 243 * h))?;
            let p = pk_trits(y.pk());
            let e = pks.entry(id).or_insert(p.clone());
            eqv(&format!("{}: public key against before", what), &p, e)?;
            ensure(pks.iter().all(|(i, q)| *i == id || *q != p), &format!("{}: another key has the same public key", what))?;
        }
    }
    Ok(())
}
fn sweep(c: &J) -> R {
    static CACHE: Mutex<Option<HashMap<(usize, usize, usize), Arc<OnceLock<(Key, Vec<u8>)>>>>> = Mutex::new(None);
    let (h, k, v, p, s) = (c.get("h").u(), c.get("k").u(), c.get("v").u(), c.get("p").u(), c.get("s").u());
    let e = CACHE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).entry((h, k, v)).or_default().clone();
    let (key, sig) = e.get_or_init(|| { let mut key = fresh("complete", 1, 1, h); for _ in 0..k { key.next(); } let s = key.sign(&value(v)); (key, s) });
    let hash = tr(&value(v));
    if c.has("q") {
        let q = c.get("q");
        let mut b = pk_trits(key.pk());
        if q.u() < 243 { b[q.u()] = (b[q.u()] + s as u8) % 3 } else { b.fill(q.u() as u8 - 243) }
        let near = pk_from(&b);
        let what = format!("height {} number {} value {}", h, k, v);
        let t = tr(sig);
        ensure(key.pk().verify(hash.slice(), t.slice()), &format!("{}: does not verify", what))?;
        ensure(near != *key.pk(), &format!("{}: public keys differing at trit {} are equal", what, q.u()))?;
        return ensure(!near.verify(hash.slice(), t.slice()), &format!("{}: verifies under the public key with trit {} changed", what, q.u()));
    }
    let mut t = sig.clone();
    t[p] = (t[p] + s as u8) % 3;
    let what = format!("height {} number {} value {} trit {} +{}", h, k, v, p, s);
    if p < 18 { eq(&format!("harness: header {}", what), (refimpl::unbt(&t[..4]), refimpl::unbt(&t[4..18])), (c.get("height").n(), c.get("number").n())).map_err(|e| panic!("{}", e)).unwrap() }
    let t = tr(&t);
    ensure(!key.pk().verify(hash.slice(), t.slice()), &format!("{}: altered signature verifies", what))?;
    match PublicKey::recover(hash.slice(), t.slice()) {
        Some((q, _)) => { ensure(c.get("recoverable").b(), &format!("{}: key recovered from a header out of range", what))?; ensure(q != *key.pk(), &format!("{}: signer's key recovered from an altered signature", what)) }
        None => ensure(!c.get("recoverable").b(), &format!("{}: nothing recovered though the header is in range", what)),
    }
}
/// one-time signatures of two values with one key
fn pair(c: &J) -> R {
    let hv = |j: &J| -> Vec<u8> { j.ns().iter().flat_map(|d| refimpl::bt(*d, 3)).collect() };
    let (m, n) = (hv(c.get("m")), hv(c.get("n")));
    let salt = (m[0] as usize + m[3] as usize + n[231] as usize) % 3;
    let prng = PRNG::init(tr(&prng_key(1)).slice());
    let nn = tr(&nonce(4 + salt));
    let sk = wots::PrivateKey::gen(&prng, &[nn.slice()]);
    let pk = wots::PublicKey::gen(&sk);
    let mut pkt = Trits::zero(wots::PUBLIC_KEY_SIZE);
    sk.calc_pk(pkt.slice_mut());
    let sign = |h: &[u8]| { let mut s = tr(&vec![2; wots::SIGNATURE_SIZE]); sk.sign(tr(h).slice(), s.slice_mut()); tvt(&s) };
    let rec = |h: &[u8], s: &[u8]| { let mut p = Trits::zero(243); wots::recover(tr(h).slice(), tr(s).slice(), p.slice_mut()); tvt(&p) };
    let (sm, sn) = (sign(&m), sign(&n));
    for (h, s, name) in [(&m, &sm, "first"), (&n, &sn, "second")] {
        eqv(&format!("public key recovered from the {} value's signature", name), &rec(h, s), &tvt(&pkt))?;
        ensure(pk.verify(tr(h).slice(), tr(s).slice()), &format!("signature of the {} value does not verify", name))?;
    }
    for (h, s, name) in [(&n, &sm, "first value's signature for the second"), (&m, &sn, "second value's signature for the first")] {
        ensure(rec(h, s) != tvt(&pkt), &format!("the {} gives the signer's key", name))?;
        ensure(!pk.verify(tr(h).slice(), tr(s).slice()), &format!("the {} verifies", name))?;
    }
    // can the parts of one signature be advanced to those of the other?
    let part = |s: &[u8], i: usize| s[162 * i..162 * i + 162].to_vec();
    let ahead = |a: &[u8], b: &[u8]| -> Option<usize> {
        let mut x = tr(a);
        for d in 0..=26 { if tvt(&x) == b { return Some(d) } let y = x.clone(); spongos::hash_data(y.slice(), x.slice_mut()) }
        None
    };
    let (pm, pn) = (c.get("pm").us(), c.get("pn").us());
    let (mut fwd, mut bwd) = (true, true);
    for i in 0..81 {
        let (a, b) = (part(&sm, i), part(&sn, i));
        // look where the specification expects the distance first; the other direction only if needed
        if fwd && pm[i] > pn[i] { fwd = ahead(&a, &b).is_some() }
        if bwd && pm[i] < pn[i] { bwd = ahead(&b, &a).is_some() }
    }
    if fwd { fwd = (0..81).all(|i| ahead(&part(&sm, i), &part(&sn, i)).is_some()) }
    if bwd { bwd = (0..81).all(|i| ahead(&part(&sn, i), &part(&sm, i)).is_some()) }
    ensure(!fwd, "every part of the first signature can be advanced to the second's")?;
    ensure(!bwd, "every part of the second signature can be advanced to the first's")?;
    stat("pairs", 1);
    Ok(())
}
/// public key object holding the given trits
pub fn pk_from(t: &[u8]) -> PublicKey {
    let mut pk = fresh("complete", 1, 1, 0).pk().clone();
    let b = tr(t);
    let mut s = Spongos::init();
    let mut x = b.slice();
    pk.unwrap_absorb(&mut s, &mut x).expect("harness: public key");
    pk
}
/// a tree that knows one leaf; its neighbours on the path are arbitrary (spec/MssFar.tla)
struct Far { h: usize, k: usize, path: Vec<Vec<u8>>, root: Trits }
thread_local! { static START: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
fn far_path(h: usize, k: usize) -> Vec<Vec<u8>> { (0..h).map(|d| atom(&format!("far {} {} {}", h, d, (k >> d) ^ 1), 243)).collect() }
fn fold(k: usize, leaf: &[u8], path: &[Vec<u8>]) -> Vec<u8> {
    path.iter().enumerate().fold(leaf.to_vec(), |x, (d, n)| if (k >> d) & 1 == 0 { refimpl::RefSp::hash(&[&x, n], 243) } else { refimpl::RefSp::hash(&[n, &x], 243) })
}
impl TraversableMerkleTree<Trits> for Far {
    fn gen<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(g: &G, _m: &M, h: usize) -> Self {
        let k = START.with(|s| s.get());
        let path = far_path(h, k);
        let root = tr(&fold(k, &tvt(&g.gen_leaf(k)), &path));
        Far { h, k, path, root }
    }
    fn next<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(&mut self, _g: &G, _m: &M) -> bool { self.k += 1; self.k < 1 << self.h }
    fn root(&self) -> &Trits { &self.root }
    fn height(&self) -> usize { self.h }
    fn skn(&self) -> usize { self.k }
    fn apath(&self) -> APath<Trits> { let mut p = APath::new(self.h); for n in &self.path { p.push(tr(n)) } p }
    fn store(&self) -> (usize, usize, Vec<Trits>) { (self.h, self.k, vec![]) }
    fn load(_: usize, _: usize, _: Vec<Trits>) -> Option<Self> { None }
}
fn far_key(h: usize, k: usize) -> PrivateKeyT<Far> {
    START.with(|s| s.set(k));
    PrivateKeyT::<Far>::gen(&PRNG::init(tr(&prng_key(1)).slice()), tr(&nonce(1)).slice(), h)
}
fn far_sign(key: &PrivateKeyT<Far>, h: usize, v: usize) -> Vec<u8> {
    let mut s = tr(&vec![1; mss::sig_size(h)]);
    key.sign(tr(&value(v)).slice(), s.slice_mut());
    tvt(&s)
}
/// every number has its own one-time key and its own header
fn farkeys(c: &J) -> R {
    let h = c.get("h").u();
    let mut seen: HashMap<Vec<u8>, (usize, usize)> = HashMap::new();
    let mut key = far_key(h, 0);
    for k in c.get("ks").us() {
        while key.skn() < k && k - key.skn() < 4 { key.next(); }
        if key.skn() != k { START.with(|s| s.set(k)); key = far_key(h, k) }
        let what = format!("key of height {} at number {}", h, k);
        eq(&format!("{}: number and keys left", what), (key.skn(), key.skn_left(), key.height()), (k, (1usize << h) - k, h))?;
        let s = far_sign(&key, h, 1);
        eq(&format!("{}: header", what), (refimpl::unbt(&s[..4]), refimpl::unbt(&s[4..18])), (h as i64, k as i64))?;
        for p in 0..81 {
            let e = *seen.entry(s[18 + 162 * p..180 + 162 * p].to_vec()).or_insert((k, p));
            eq(&format!("{}: part {} of the one-time key was used before as (number, part)", what, p), e, (k, p))?;
        }
        stat("far_numbers", 1);
    }
    Ok(())
}
fn far(c: &J, prop: &str) -> R {
    let (h, k, v) = (c.get("h").u(), c.get("k").u(), c.get("v").u());
    let what = format!("key of height {} at number {}", h, k);
    let key = far_key(h, k);
    let s = far_sign(&key, h, v);
    let hash = tr(&value(v));
    let pk = key.public_key().clone();
    if prop == "C06" {
        eq(&format!("{}: number and keys left", what), (key.skn(), key.skn_left(), key.height()), (k, c.get("left").u(), h))?;
        eq(&format!("{}: header", what), (refimpl::unbt(&s[..4]), refimpl::unbt(&s[4..18])), (h as i64, k as i64))?;
        return ensure(pk.verify(hash.slice(), tr(&s).slice()), &format!("{}: its signature does not verify under its tree", what));
    }
    ensure(pk.verify(hash.slice(), tr(&s).slice()), &format!("{}: signature does not verify", what))?;
    match PublicKey::recover(hash.slice(), tr(&s).slice()) {
        Some((q, n)) => { ensure(q == pk, &format!("{}: another key recovered", what))?; eq(&format!("{}: recovered size", what), n, s.len())? }
        None => return Err(format!("{}: nothing recovered", what)),
    }
    let claim = |hh: i64, kk: i64| { let mut t = s.clone(); t[..4].copy_from_slice(&refimpl::bt(hh, 4)); t[4..18].copy_from_slice(&refimpl::bt(kk, 14)); tr(&t) };
    for w in c.get("wrong").us() {
        let t = claim(h as i64, w as i64);
        let what = format!("{}, number {} claimed", what, w);
        ensure(!pk.verify(hash.slice(), t.slice()), &format!("{}: verifies", what))?;
        match PublicKey::recover(hash.slice(), t.slice()) {
            // the one-time signature is good, so the key is the path folded in the claimed order
            Some((q, _)) => ensure(q != pk, &format!("{}: signer's key recovered", what))?,
            None => return Err(format!("{}: nothing recovered", what)),
        }
        stat("far_claims", 1);
    }
    for w in c.get("past").a() {
        let t = claim(h as i64, w.n());
        let what = format!("{}, number {} claimed", what, w.n());
        ensure(!pk.verify(hash.slice(), t.slice()), &format!("{}: verifies", what))?;
        ensure(PublicKey::recover(hash.slice(), t.slice()).is_none(), &format!("{}: a key recovered", what))?;
    }
    for w in c.get("hs").a() {
        let t = claim(w.n(), k as i64);
        let what = format!("{}, height {} claimed", what, w.n());
        ensure(!pk.verify(hash.slice(), t.slice()), &format!("{}: verifies", what))?;
        if let Some((q, n)) = PublicKey::recover(hash.slice(), t.slice()) {
            ensure(w.n() >= 0 && w.n() < h as i64 && (k >> w.n()) == 0, &format!("{}: a key recovered", what))?;
            ensure(q != pk && n < s.len(), &format!("{}: signer's key recovered", what))?;
        }
    }
    // one trit of the path at each level
    for d in 0..h {
        let mut t = s.clone();
        let p = 18 + 81 * 162 + 243 * d + (k + 31 * d) % 243;
        t[p] = (t[p] + 1) % 3;
        ensure(!pk.verify(hash.slice(), tr(&t).slice()), &format!("{}: verifies with another node at level {}", what, d))?;
    }
    stat("far_signatures", 1);
    Ok(())
}
pub fn replay(c: &J, prop: &str) -> R { let _ = &pb3::Err::Eof; match c.get("t").s() { "mss" => prog(c, prop), "sweep" => sweep(c), "pair" => pair(c), "farkeys" => if prop == "C06" { farkeys(c) } else { Ok(()) }, "far" => far(c, prop), t => panic!("harness: mss {}", t) } }
