//! Replay of spec/Ntru.tla: key encapsulation by what it promises, not by its trits.
use crate::common::*;
use crate::json::*;
use crate::refimpl as rf;
use iota_mam::ntru::{self, PrivateKey, PublicKey};
use iota_mam::pb3::{Absorb, Mask};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::Trits;
use std::sync::OnceLock;

fn prng(g: usize) -> PRNG { let mut k = atom("ntru prng", 243); if g == 2 { k[242] = (k[242] + 1) % 3 } if g > 2 { k = vec![0; 243] } if g > 3 { k = atom(&format!("ntru prng {}", g), 243) } PRNG::init(tr(&k).slice()) }
fn nonce(n: usize) -> Vec<u8> { match n { 1 => vec![], 2 => atom("ntru nonce", 81), 3 => { let mut v = atom("ntru nonce", 81); v[40] = (v[40] + 1) % 3; v } n => atom(&format!("ntru nonce {}", n), 15) } }
fn key(k: usize) -> Vec<u8> { match k { 1 => vec![0; 243], 2 => vec![1; 243], 3 => vec![2; 243], k => { let mut v = atom("ntru key", 243); if k == 5 { v[242] = (v[242] + 1) % 3 } v } } }
pub fn pair(g: usize, n: usize) -> (PrivateKey, PublicKey) { let t = tr(&nonce(n)); ntru::gen(&prng(g), t.slice()) }
fn set(v: &mut [u8], i: usize, c: i64) { v[9 * i..9 * i + 9].copy_from_slice(&rf::bt(c, 9)) }
fn get(v: &[u8], i: usize) -> i64 { rf::unbt(&v[9 * i..9 * i + 9]) }
/// None: the alteration cannot be written
fn alter(v: &[u8], a: &J) -> Option<Vec<u8>> {
    let mut y = v.to_vec();
    let (i, d) = (a.get("i"), a.get("d"));
    match a.get("a").s() {
        "none" => return Some(y),
        "trit" => { let i = i.u(); y[i] = (y[i] + d.u() as u8) % 3 }
        "coef" => { let i = i.u(); let c = get(&y, i); set(&mut y, i, rf::center(c + d.n())) }
        "alias" => { let i = i.u(); let c = get(&y, i) + rf::Q * d.n(); if c.abs() > 9841 { return None } set(&mut y, i, c) }
        "set" => set(&mut y, i.u(), d.n()),
        "swap" => { let (i, j) = (i.u(), d.u()); let (a, b) = (get(&y, i), get(&y, j)); set(&mut y, i, b); set(&mut y, j, a) }
        "negate" => for t in y.iter_mut() { *t = (3 - *t) % 3 },
        "shift" => { y.rotate_right(9); for t in y[..9].iter_mut() { *t = (3 - *t) % 3 } }
        "zero" => y = vec![0; y.len()],
        "size" => { let n = (y.len() as i64 + d.n()) as usize; y.resize(n, 0) }
        "root" => {
            let mut p = vec![0; rf::N]; let (i, j) = (i.u(), d.u());
            let mut r = 1i64; for _ in 0..((2 * j + 1) * i) % (2 * rf::N) { r = r * 7 % rf::Q }
            p[i] = 1; p[0] = -r;
            y = rf::ptrits(&rf::pmul(&rf::pfrom(&y).expect("harness: public key"), &p));
        }
        x => panic!("harness: alteration {}", x),
    }
    if y == v { None } else { Some(y) }
}
/// every way to make a public key from trits; the size-checked ones only get other sizes
fn offer(what: &str, t: &[u8]) -> R {
    let want = t.len() == ntru::PK_SIZE && match rf::pfrom(t) { Some(p) => rf::invertible(&p), None => false };
    let made = std::cell::RefCell::new(None::<(String, Vec<u8>)>);
    let check = |how: &str, pk: Option<PublicKey>| -> R {
        match pk {
            None => ensure(!want, &format!("{}: refused by {}", what, how)),
            Some(pk) => {
                ensure(want, &format!("{}: accepted by {}", what, how))?; eqv(&format!("{}: trits of the key from {}", what, how), &tv(pk.trits()), t)?; eqv(&format!("{}: identifier", what), &tv(pk.id()), &t[..ntru::PKID_SIZE])?;
                let mut y = Trits::zero(ntru::EKEY_SIZE);
                pk.encr(&prng(1), tr(&nonce(2)).slice(), tr(&key(4)).slice(), y.slice_mut());
                let y = tvt(&y);
                let mut first = made.borrow_mut();
                if let Some((h, v)) = &*first { eqv(&format!("{}: capsule made with the key from {} and with that from {}", what, how, h), &y, v)? } else { *first = Some((how.to_string(), y)) }
                Ok(())
            }
        }
    };
    check("from_trits", PublicKey::from_trits(tr(t)))?;
    check("from_slice", PublicKey::from_slice(tr(t).slice()))?;
    if t.len() <= ntru::PK_SIZE {
        let b = tr(t);
        let r = PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut b.slice()); check("unwrap_absorb_sized", r.ok())?;
        let mut other = pair(3, 1).1;
        let r = other.unwrap_absorb(&mut Spongos::init(), &mut b.slice()); check("unwrap_absorb", r.ok().map(|_| other))?;
        let mut s = Spongos::init(); s.absorb(tr(&key(4)).slice()); s.commit();
        let mut m = Trits::zero(t.len());
        s.fork().encr(b.slice(), m.slice_mut());
        let r = PublicKey::unwrap_mask_sized(&mut s.fork(), &mut m.slice()); check("unwrap_mask_sized", r.ok())?;
        let mut other = pair(3, 1).1;
        let r = other.unwrap_mask(&mut s.fork(), &mut m.slice()); check("unwrap_mask", r.ok().map(|_| other))?;
    }
    stat(if want { "keys_accepted" } else { "keys_refused" }, 1);
    Ok(())
}
fn sim(c: &J) -> R {
    let mut pairs: Vec<((usize, usize), (PrivateKey, PublicKey))> = vec![];
    let mut sps: Vec<Spongos> = vec![];
    let mut caps: Vec<Vec<u8>> = vec![];
    let mut made: Vec<(usize, (i64, i64, i64), (usize, usize))> = vec![];
    for (n, h) in c.get("hist").a().iter().enumerate() {
        let op = h.get("op").s();
        let what = format!("op {} {}", n + 1, h.show());
        stat(&format!("op_{}", op), 1);
        match op {
            "gen" => {
                let id = (h.get("g").u(), h.get("n").u());
                let p = pair(id.0, id.1);
                for (i, q) in &pairs { ensure((*i == id) == (p.1 == q.1), &format!("{}: public keys equal though made differently, or different", what))? }
                pairs.push((id, p));
            }
            "sponge" => sps.push(Spongos::init()),
            "fork" => { let s = sps[h.get("s").u() - 1].fork(); sps.push(s) }
            "absorb" => { let n = h.get("len").u(); let a = atom(&format!("ntru absorb {} {}", h.get("a").u(), n), n); sps[h.get("s").u() - 1].absorb(tr(&a).slice()) }
            "encr" => {
                let (_, (_, pk)) = &pairs[h.get("p").u() - 1];
                let s = &mut sps[h.get("s").u() - 1];
                let fresh = tvf(s) == tvf(&Spongos::init());
                let (k, nn) = (tr(&key(h.get("k").u())), tr(&nonce(h.get("n").u())));
                let g = prng(h.get("g").u());
                // a copy made from its trits behaves the same
                let copy = PublicKey::from_trits(tr(&tv(pk.trits()))).ok_or(format!("{}: own public key refused", what))?;
                let mut y2 = tr(&vec![1; ntru::EKEY_SIZE]);
                copy.encr_with_s(&mut s.fork(), &g, nn.slice(), k.slice(), y2.slice_mut());
                let mut y = Trits::zero(ntru::EKEY_SIZE + 6);
                if fresh && n % 2 == 0 {
                    pk.encr(&g, nn.slice(), k.slice(), y.slice_mut().drop(3).take(ntru::EKEY_SIZE));
                    pk.encr_with_s(s, &g, nn.slice(), k.slice(), y2.slice_mut());
                } else { pk.encr_with_s(s, &g, nn.slice(), k.slice(), y.slice_mut().drop(3).take(ntru::EKEY_SIZE)) }
                let y = tvt(&y);
                ensure(y[..3] == [0; 3] && y[ntru::EKEY_SIZE + 3..] == [0; 3], &format!("{}: wrote outside the capsule", what))?;
                let y = y[3..3 + ntru::EKEY_SIZE].to_vec();
                eqv(&format!("{}: capsule made with a copy of the public key", what), &tvt(&y2), &y)?;
                ensure(caps.iter().all(|q| *q != y) || c.get("hist").a()[..n].iter().any(|q| q.get("op").s() == "encr" && q.get("k") .n() == h.get("k").n() && q.get("g").n() == h.get("g").n() && q.get("n").n() == h.get("n").n()), &format!("{}: same capsule as one made from other values", what))?;
                // another generator, session key, nonce or recipient: other randomness, so that capsules do not agree but for small differences
                let ((pg, pn), with) = (pairs[h.get("p").u() - 1].0, (h.get("k").n(), h.get("g").n(), h.get("n").n()));
                for (m, w, p) in &made { if *p != (pg, pn) || *w != with {
                    let near = (0..rf::N).filter(|&i| rf::center(get(&caps[*m], i) - get(&y, i)).abs() <= 13).count();
                    ensure(near < 100, &format!("{}: {} coefficients are nearly those of a capsule made from other values", what, near))?;
                    stat("capsule_pairs", 1);
                } }
                made.push((caps.len(), with, (pg, pn)));
                caps.push(y);
            }
            "decr" => {
                let y = match alter(&caps[h.get("y").u() - 1], h.get("alter")) { Some(y) => y, None => { sps[h.get("s").u() - 1] = Spongos::init(); stat("alteration_void", 1); continue } };
                let (_, (sk, _)) = &pairs[h.get("p").u() - 1];
                let s = &mut sps[h.get("s").u() - 1];
                let mut k = tr(&vec![1; 243 + 4]);
                let b = tr(&y);
                let fresh = tvf(s) == tvf(&Spongos::init());
                if fresh {
                    let mut k2 = Trits::zero(243);
                    let ok = sk.decr(b.slice(), k2.slice_mut());
                    eq(&format!("{}: opens on a new sponge", what), ok, h.get("ok").b())?;
                    if ok { eqv(&format!("{}: session key", what), &tvt(&k2), &key(h.get("k").u()))? }
                }
                let ok = sk.decr_with_s(s, b.slice(), k.slice_mut().drop(2).take(243));
                eq(&format!("{}: opens", what), ok, h.get("ok").b())?;
                let k = tvt(&k);
                ensure(k[..2] == [1; 2] && k[245..] == [1; 2], &format!("{}: wrote outside the key", what))?;
                if ok { eqv(&format!("{}: session key", what), &k[2..245], &key(h.get("k").u()))? }
                eqv(&format!("{}: the capsule was changed", what), &tvt(&b), &y)?;
                stat(if ok { "opened" } else { "refused" }, 1);
            }
            "pub" => {
                let t = tv(pairs[h.get("p").u() - 1].1 .1.trits());
                match alter(&t, h.get("alter")) { Some(u) => {
                    offer(&what, &u)?;
                    // equal only if of the same trits
                    if let (Some(p), Some(q)) = (PublicKey::from_trits(tr(&t)), PublicKey::from_trits(tr(&u))) { eq(&format!("{}: keys of different trits equal", what), (p == q, q == p), (t == u, t == u))? }
                } None => stat("alteration_void", 1) }
            }
            "compare" => {
                let cl = h.get("class").us();
                let f: Vec<Vec<u8>> = sps.iter().map(tvf).collect();
                for i in 0..f.len() { for j in 0..i {
                    if cl[i] != 0 && cl[j] != 0 { ensure((f[i] == f[j]) == (cl[i] == cl[j]), &format!("{}: sponges {} and {} {}", what, j + 1, i + 1, if cl[i] == cl[j] { "differ" } else { "agree" }))? }
                } }
            }
            "skip" => {}
            x => panic!("harness: ntru op {}", x),
        }
    }
    Ok(())
}
/// what a sponge will give after a commit
fn tvf(s: &Spongos) -> Vec<u8> { let mut s = s.fork(); let mut o = Trits::zero(100); s.absorb(tr(&atom("ntru mark", 90)).slice()); s.commit(); s.squeeze(o.slice_mut()); tvt(&o) }
fn sweep(c: &J) -> R {
    static T: OnceLock<(PrivateKey, PublicKey, Vec<u8>, Spongos)> = OnceLock::new();
    let (sk, pk, y, s) = T.get_or_init(|| {
        let (sk, pk) = pair(1, 2);
        let mut s = Spongos::init(); s.absorb(tr(&key(4)).slice());
        let mut y = Trits::zero(ntru::EKEY_SIZE);
        pk.encr_with_s(&mut s.fork(), &prng(2), tr(&nonce(4)).slice(), tr(&key(5)).slice(), y.slice_mut());
        (sk, pk, tvt(&y), s)
    });
    let try_ = |v: &[u8]| { let mut k = Trits::zero(243); let ok = sk.decr_with_s(&mut s.fork(), tr(v).slice(), k.slice_mut()); (ok, tvt(&k)) };
    if c.get("i").u() == 0 { let (ok, k) = try_(y); ensure(ok && k == key(5), "capsule does not open")? }
    let i = c.get("i").u();
    for t in c.get("trits").a() {
        let (p, d) = (t.a()[0].u(), t.a()[1].u());
        let mut v = y.clone(); v[p] = (v[p] + d as u8) % 3;
        ensure(!try_(&v).0, &format!("capsule with trit {} +{} opens", p, d))?;
        if THOROUGH.load(std::sync::atomic::Ordering::Relaxed) { let mut t = tv(pk.trits()); t[p] = (t[p] + d as u8) % 3; offer(&format!("public key with trit {} +{}", p, d), &t)? }
    }
    for d in c.get("shifts").ns() {
        let x = get(y, i) + d;
        if x.abs() > 9841 { continue }
        let mut v = y.clone(); set(&mut v, i, x);
        ensure(!try_(&v).0, &format!("capsule with coefficient {} {:+} opens", i, d))?;
        if d.abs() == rf::Q { stat("aliases", 1) }
    }
    let t = tv(pk.trits());
    for d in [rf::Q, -rf::Q] { let x = get(&t, i) + d; if x.abs() <= 9841 { let mut v = t.clone(); set(&mut v, i, x); offer(&format!("public key with coefficient {} {:+}", i, d), &v)? } }
    Ok(())
}
/// the public key x - c and its mirror image
fn root(c: &J) -> R {
    let (v, inv) = (c.get("c").n(), c.get("inv").b());
    for v in [v, -v] {
        let mut p = vec![0; rf::N]; p[1] = 1; p[0] = -v;
        let t = rf::ptrits(&p);
        let got = PublicKey::from_trits(tr(&t));
        ensure(got.is_some() == inv, &format!("public key x - ({}) {}", v, if inv { "refused" } else { "accepted" }))?;
        stat(if inv { "roots_invertible" } else { "roots_singular" }, 1);
    }
    Ok(())
}
pub fn replay(c: &J) -> R { match c.get("t").s() { "sim" => sim(c), "sweep" => sweep(c), "root" => root(c), t => panic!("harness: ntru {}", t) } }
