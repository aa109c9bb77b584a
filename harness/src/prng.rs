//! Replay of spec/Prng.tla.  Stream is interpreted by what the code itself gave first:
//! equal terms must give equal streams, different terms unrelated ones.
use crate::common::*;
use crate::json::*;
use iota_mam::prng::{self, PRNG};
use iota_mam::trits::{TritSlice, Trits};
use std::collections::HashMap;

fn string(pre: &str, s: &J) -> Vec<u8> {
    let mut x = atom(&format!("{}{}", pre, s.get("a").u()), s.get("len").u());
    let f = s.get("flip").u();
    if f > 0 { x[f - 1] = (x[f - 1] + 1) % 3 }
    x.extend(vec![0; s.get("z").u()]);
    x
}
/// what the code cannot tell apart by design: trits in the last block that are there already, zeros in the first one (known finding)
fn padded(t: &[u8]) -> Vec<u8> { let mut s = crate::refimpl::RefSp::new(); s.absorb(t); let mut p = t.to_vec(); if s.pos > 0 { p.extend_from_slice(&s.out[s.pos..]) } p }
fn agreement(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().min(b.len());
    if n < 81 { return false }
    (0..n).step_by(81).any(|i| { let e = (i + 81).min(n); let b0 = e - 81; (b0..e).filter(|&k| a[k] == b[k]).count() > 60 })
}
pub fn replay(c: &J) -> R {
    let hist = c.get("hist").a();
    let mut gens: Vec<PRNG> = Vec::new();
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for (n, h) in hist.iter().enumerate() {
        let op = h.get("op").s();
        let key = string("pk", h.get("key"));
        if op == "new" {
            gens.push(match n % 4 { 0 => PRNG::init(sl(&key)), 1 => PRNG::init_trits(&tr(&key)), 2 => prng::init(sl(&key)), _ => prng::init_trits(&tr(&key)) });
            continue;
        }
        let g = &gens[h.get("g").u() - 1];
        if op == "clone" { let x = g.clone(); gens.push(x); continue }
        let ns: Vec<Vec<u8>> = h.get("ns").a().iter().map(|s| string("pn", s)).collect();
        let os = h.get("os").us();
        let mut term = key.clone();
        for x in &ns { term.extend_from_slice(x) }
        let nonce = term[243..].to_vec();
        let what = format!("step {} {}: {} nonces of {} trits in total, {:?} output trits", n + 1, op, ns.len(), nonce.len(), os);
        let lists: Vec<Trits> = ns.iter().map(|x| tr(x)).collect();
        let sls: Vec<TritSlice> = lists.iter().map(|x| x.slice()).collect();
        let total: usize = os.iter().sum();
        let out: Vec<u8> = match op {
            "gen" => { let t = tr(&nonce); let mut o = Trits::zero(total); g.gen(t.slice(), o.slice_mut()); tvt(&o) }
            "gen_trits" => tvt(&g.gen_trits(&tr(&nonce), total)),
            "gens" => { let mut o = Trits::zero(total); g.gens(&sls, o.slice_mut()); tvt(&o) }
            "split" => {
                // another cut of the same nonces, output inside a larger buffer
                let t = tr(&nonce); let k = nonce.len() * h.get("k").u().min(5) / 5;
                let mut b = vec![1u8; total + 9]; 
                let mut o = tr(&b);
                g.gens(&[t.slice().take(k), t.slice().drop(k)], o.slice_mut().drop(4).take(total));
                b = tvt(&o);
                ensure(b[..4] == [1; 4] && b[4 + total..] == [1; 5], &format!("{}: wrote outside the output", what))?;
                b[4..4 + total].to_vec()
            }
            "genss" => {
                let mut bufs: Vec<Trits> = os.iter().map(|&k| Trits::zero(k)).collect();
                { let ms: Vec<_> = bufs.iter_mut().map(|b| b.slice_mut()).collect(); g.genss(&sls, &ms); }
                bufs.iter().flat_map(|b| tvt(b)).collect()
            }
            o => panic!("harness: prng op {}", o),
        };
        stat(&format!("op_{}", op), 1);
        // equal calls agree on the common prefix, different ones do not
        for (t, s) in seen.iter() {
            let m = s.len().min(out.len());
            if *t == term { eqv(&format!("{}: an equal earlier request", what), &out[..m], &s[..m])? }
            else if agreement(&out, s) {
                if padded(t) == padded(&term) {
                    let (a, b) = if t.len() < term.len() { (t, &term) } else { (&term, t) };
                    known("C14", "prng-zero-padding", &format!("nonces of {} and {} trits, equal up to trits of one block which the state holds already, give equal output", a.len() - 243, b.len() - 243));
                } else { return Err(format!("{}: output related to that of a different request (keys equal: {}, nonce lengths {} and {})", what, t[..243] == term[..243], t.len() - 243, term.len() - 243)) }
            } else { stat("pairs_distinct", 1) }
        }
        let e = seen.entry(term).or_default();
        if out.len() > e.len() { *e = out }
    }
    Ok(())
}
