//! Replay of spec/TroikaGen.tla: permutation evaluations and hash behaviours.
use crate::common::*;
use crate::json::*;
use crate::refimpl;
use iota_mam::troika::{Troika, TroikaSponge};
use std::collections::HashMap;

fn load(t: &mut Troika, x: &[u8], order: usize) {
    // in any order, over garbage
    for i in 0..729 { let j = (i * [1, 7, 728][order % 3]) % 729; t.set1(j, (x[j] + 1 + (j % 2) as u8) % 3); t.set1(j, x[j]); }
}
fn get(t: &Troika) -> Vec<u8> { (0..729).map(|i| t.get1(i)).collect() }
fn perm(c: &J) -> R {
    let (x, y) = (c.get("x").trits(), c.get("y").trits());
    let mut r = x.clone();
    refimpl::troika(&mut r);
    if r != y { panic!("harness: reference permutation differs from spec/Troika.tla") }
    let mut t = if x[0] == 0 { Troika::new() } else { Troika::default() };
    eqv("initial state", &get(&t), &[0; 729])?;
    load(&mut t, &x, x[1] as usize);
    eqv("state as set", &get(&t), &x)?;
    t.permutation();
    eqv("permutation", &get(&t), &y)?;
    // the same object again and again, with parts overwritten
    for n in 0..if THOROUGH.load(std::sync::atomic::Ordering::Relaxed) { 3000 } else { 300 } {
        if n % 3 == 1 { for i in 0..243 + n { let v = (i * n % 3) as u8; t.set1(i % 729, v); r[i % 729] = v } }
        t.permutation(); refimpl::troika(&mut r);
        eqv(&format!("permutation {} in a row", n + 2), &get(&t), &r)?;
        stat("permutations", 1);
    }
    Ok(())
}
fn msg(j: &J, salt: usize) -> Vec<u8> {
    j.a().iter().flat_map(|s| { let s = s.us(); atom(&format!("tk{}in{}", salt, s[0]), s[1]) }).collect()
}
fn hash(c: &J) -> R {
    let hist = c.get("hist").a();
    let salt = hist.len();
    let mut s = TroikaSponge::default();
    let mut stream = Vec::new();
    for (n, h) in hist.iter().enumerate() {
        let what = format!("step {} {} {}", n + 1, h.get("op").s(), h.get("n").n());
        match h.get("op").s() {
            "absorb" => {
                let x = atom(&format!("tk{}in{}", salt, h.get("id").u()), h.get("n").u());
                if n % 3 == 2 && x.len() > 2 { let k = 1 + n % (x.len() - 1); s.absorb(&x[..k]); s.absorb(&x[k..]) } else { s.absorb(&x) }
            }
            "finalize" => {
                s.finalize();
                let m = msg(h.get("msg"), salt);
                let mut r = refimpl::RefTroikaSponge::new();
                r.absorb(&m); r.finalize();
                stream = r.squeeze(8000);
            }
            "squeeze" => {
                let (off, k) = (h.get("off").u(), h.get("n").u());
                let mut y = vec![9u8; k];
                s.squeeze(&mut y);
                eqv(&what, &y, &stream[off..off + k])?;
            }
            "reset" => s.reset(),
            o => panic!("harness: hash op {}", o),
        }
        stat(&format!("op_{}", h.get("op").s()), 1);
    }
    Ok(())
}
fn distinct(c: &J) -> R {
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for m in c.get("msgs").a() {
        let m = m.us();
        let mut x = atom(&format!("tkd{}", m[0]), m[1]);
        if m[2] > 0 { x[m[2] - 1] = (x[m[2] - 1] + 1) % 3 }
        x.extend(vec![0; m[3]]);
        let mut s = TroikaSponge::default();
        s.absorb(&x); s.finalize();
        let mut d = vec![0; 243]; s.squeeze(&mut d);
        if let Some(y) = seen.get(&d) { if *y != x { return Err(format!("messages of {} and {} trits have one digest: {} and {}", y.len(), x.len(), short(y), short(&x))) } }
        seen.insert(d, x);
        stat("digests", 1);
    }
    Ok(())
}
pub fn replay(c: &J) -> R {
    match c.get("t").s() { "perm" => perm(c), "hash" => hash(c), "distinct" => distinct(c), t => panic!("harness: troika {}", t) }
}
