//! Replay of behaviours of spec/SpongosGen.tla on iota_mam::spongos.
use crate::common::*;
use crate::json::*;
use crate::refimpl::*;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};

struct Ev { salt: String, nodes: Vec<Vec<u8>> }
impl Ev {
    /// value of a segment list
    fn term(&self, x: &J) -> Vec<u8> {
        let mut v = Vec::new();
        for s in x.a() {
            let n = s.get("len").u();
            let mut p = vec![0u8; n];
            for t in s.get("lc").a() {
                let t = t.a();
                let (id, off, c) = (t[1].u(), t[2].u(), t[3].n() as u8);
                let src: Vec<u8> = match t[0].s() {
                    "in" => atom(&format!("{}in{}", self.salt, id), off + n)[off..].to_vec(),
                    "p" => self.nodes[id][off..off + n].to_vec(),
                    "q" => self.nodes[id][RATE + off..RATE + off + n].to_vec(),
                    k => panic!("harness: symbol {}", k),
                };
                for i in 0..n { p[i] = (p[i] + c * src[i]) % 3 }
            }
            v.extend(p);
        }
        v
    }
    fn new(salt: String, heap: &J) -> Ev {
        let mut e = Ev { salt, nodes: vec![vec![0u8; W]] };
        for h in heap.a() {
            let mut st = e.nodes[h.get("prev").u()].clone();
            if h.get("k").s() == "rest" { for t in st[..RATE].iter_mut() { *t = 0 } }
            else { let x = e.term(h.get("inj")); st[..x.len()].copy_from_slice(&x); troika(&mut st); }
            e.nodes.push(st);
        }
        e
    }
}

/// squeeze/absorb probes from clones: the whole observable state
pub fn probe(what: &str, real: &Spongos, r: &RefSp) -> R {
    let (mut a, mut b) = (real.clone(), r.clone());
    eqv(&format!("{}: squeezed from the end state", what), &tvt(&a.squeeze_trits(729)), &b.squeeze(729))?;
    let (mut a, mut b) = (real.clone(), r.clone());
    a.absorb(sl(&[2])); a.commit(); b.absorb(&[2]); b.commit();
    eqv(&format!("{}: squeezed after a commit", what), &tvt(&a.squeeze_trits(243)), &b.squeeze(243))?;
    let (mut a, mut b) = (real.clone(), r.clone());
    a.commit(); b.commit();
    eqv(&format!("{}: inner state", what), &tvt(&a.to_inner_trits()), &b.st[RATE..])
}

fn pieces(n: usize, via: &str, k: usize) -> Vec<usize> {
    if n == 0 { return vec![0] }
    match via {
        "single" if n <= 90 => vec![1; n],
        "single" => { let mut v = vec![1; 30]; v.push(n - 60); v.extend(vec![1; 30]); v }
        "cut" | "cutin" => {
            let a = match k { 1 => 1, 2 => n / 2, _ => n - 1 };
            vec![a, n - a]
        }
        _ => vec![n],
    }
}
/// encr/decr through the chosen entry point
fn crypt(s: &mut Spongos, enc: bool, x: &[u8], via: &str, k: usize) -> Vec<u8> {
    let call = |s: &mut Spongos, x: TritSlice, y: TritSliceMut| if enc { s.encr(x, y) } else { s.decr(x, y) };
    match via {
        "trits" => tvt(&if enc { s.encr_trits(&tr(x)) } else { s.decr_trits(&tr(x)) }),
        "mut" => { let mut t = tr(x); if enc { s.encr_mut_trits(&mut t) } else { s.decr_mut_trits(&mut t) } tvt(&t) }
        "inplace" => { let mut t = tr(x); let y = t.slice_mut(); call(s, y.as_const(), y); tvt(&t) }
        "cutin" => {
            // in place at an offset in a larger buffer, in pieces
            let mut v = vec![1u8; 5]; v.extend_from_slice(x); v.extend_from_slice(&[2u8; 7]);
            let mut t = tr(&v); let mut y = t.slice_mut().drop(5).take(x.len());
            for p in pieces(x.len(), via, k) { let z = y.take(p); call(s, z.as_const(), z); y = y.drop(p) }
            let w = tvt(&t);
            if w[..5] != v[..5] || w[5 + x.len()..] != v[5 + x.len()..] { return vec![9; 1] }
            w[5..5 + x.len()].to_vec()
        }
        "samebuf" => {
            // input and output are disjoint parts of one buffer
            let n = x.len();
            let mut v = x.to_vec(); v.extend(vec![0u8; n + 3]);
            let mut t = tr(&v);
            let b = t.slice_mut();
            call(s, b.as_const().take(n), b.drop(n + 3));
            let w = tvt(&t);
            if w[..n] != x[..] { return vec![9; 2] }
            w[n + 3..].to_vec()
        }
        _ => {
            let mut y = Trits::zero(x.len());
            { let (mut a, mut b) = (sl(x), y.slice_mut());
              for p in pieces(x.len(), via, k) { call(s, a.take(p), b.take(p)); a = a.drop(p); b = b.drop(p) } }
            tvt(&y)
        }
    }
}

pub fn replay(case: &J) -> R {
    let hist = case.get("hist").a();
    let ev = Ev::new(format!("sp{}", hist.len()), case.get("heap"));
    let mut real: Vec<Spongos> = vec![Spongos::init(), spongos::init(), Spongos::init()];
    let mut refs: Vec<RefSp> = vec![RefSp::new(); 3];
    // what a sponge that did nothing else has absorbed, and whether it committed since: then its output is a hash
    let mut fed: Vec<Option<(Vec<Vec<u8>>, bool)>> = vec![Some((vec![], false)); 3];
    for (n, h) in hist.iter().enumerate() {
        let (op, i, j, via, k) = (h.get("op").s(), h.get("i").u() - 1, h.get("j").u().wrapping_sub(1), h.get("via").s(), h.get("k").u());
        let (x, want) = (ev.term(h.get("x")), ev.term(h.get("y")));
        let what = format!("operation {} {} of {} trits via '{}'", n + 1, op, x.len(), via);
        match (op, &mut fed[i]) {
            ("absorb", Some((v, false))) => v.push(x.clone()),
            ("commit", Some((v, done))) if !v.is_empty() => *done = true,
            ("squeeze", Some((v, true))) => {
                let ts: Vec<Trits> = v.iter().map(|x| tr(x)).collect();
                let all = tr(&v.concat());
                for k in 0..2 {
                    let mut y = tr(&vec![1; want.len() + 5]);
                    let o = y.slice_mut().drop(2).take(want.len());
                    if k == 0 { let ss: Vec<TritSlice> = ts.iter().map(|t| t.slice()).collect(); spongos::hash_datas(&ss, o) } else { spongos::hash_data(all.slice(), o) }
                    eqv(&format!("{}: hash of {} pieces by {}", what, v.len(), if k == 0 { "hash_datas" } else { "hash_data" }), &tvt(&y), &[&[1, 1], &want[..], &[1, 1, 1]].concat())?;
                }
                stat("hashes", 1); fed[i] = None
            }
            ("fork", _) => fed[j] = fed[i].clone(),
            ("join", _) => { fed[i] = None; fed[j] = None }
            ("init", _) => fed[i] = Some((vec![], false)),
            ("save", _) => if via == "ok" { fed[j] = None },
            _ => fed[i] = None,
        }
        match op {
            "absorb" => {
                let mut a = sl(&x);
                if via == "trits" { real[i].absorb_trits(&tr(&x)) }
                else { for p in pieces(x.len(), via, k) { real[i].absorb(a.take(p)); a = a.drop(p) } }
                refs[i].absorb(&x);
            }
            "squeeze" => {
                let r = refs[i].squeeze(x.len());
                if r != want { panic!("harness: reference sponge disagrees with the specification: {}", what) }
                match via {
                    "trits" => eqv(&what, &tvt(&real[i].squeeze_trits(x.len())), &want)?,
                    "eq" => if k == 2 {
                        let (mut a, mut ok) = (sl(&want), true);
                        for p in pieces(want.len(), "cut", 2) { ok &= real[i].squeeze_eq(a.take(p)); a = a.drop(p) }
                        ensure(ok, &format!("{}: squeeze_eq is false on the squeezed value", what))?
                    } else { ensure(real[i].squeeze_eq_trits(&tr(&want)), &format!("{}: squeeze_eq is false on the squeezed value", what))? },
                    "neq" => {
                        // one wrong trit: first, last or in the middle
                        let mut w = want.clone();
                        if !w.is_empty() { let p = match k { 1 => 0, 2 => w.len() / 2, _ => w.len() - 1 }; w[p] = (w[p] + 1 + (n as u8 & 1)) % 3; }
                        let r = real[i].squeeze_eq(sl(&w));
                        eq(&format!("{}: squeeze_eq with a wrong trit", what), r, w.is_empty())?
                    }
                    _ => {
                        let mut y = Trits::zero(x.len());
                        { let mut b = y.slice_mut(); for p in pieces(x.len(), via, k) { real[i].squeeze(b.take(p)); b = b.drop(p) } }
                        eqv(&what, &tvt(&y), &want)?
                    }
                }
            }
            "encr" | "decr" => {
                let r = if op == "encr" { refs[i].encr(&x) } else { refs[i].decr(&x) };
                if r != want { panic!("harness: reference sponge disagrees with the specification: {}", what) }
                eqv(&what, &crypt(&mut real[i], op == "encr", &x, via, k), &want)?
            }
            "commit" => { real[i].commit(); refs[i].commit() }
            "fork" => {
                if via == "fork" { real[j] = real[i].fork() } else {
                    let mut t = std::mem::replace(&mut real[j], Spongos::init()); real[i].fork_at(&mut t); real[j] = t
                }
                refs[j] = refs[i].clone();
            }
            "join" => {
                let mut t = std::mem::replace(&mut real[j], Spongos::init()); real[i].join(&mut t); real[j] = t;
                let mut t = refs[j].clone(); refs[i].join(&mut t); refs[j] = t;
            }
            "init" => { real[i] = Spongos::init(); refs[i] = RefSp::new() }
            "save" => {
                if via == "ok" {
                    let saved = real[i].to_inner_trits();
                    eqv(&what, &tvt(&saved), &want)?;
                    let mut o = Trits::zero(243); real[i].to_inner(o.slice_mut());
                    eqv(&what, &tvt(&o), &want)?;
                    // within something longer
                    let d = 1 + 7 * n; let mut o = tr(&vec![1; d + 243 + 5]); real[i].to_inner(o.slice_mut().drop(d).take(243));
                    let o = tvt(&o); eqv(&format!("{}: saved within a longer buffer", what), &o[d..d + 243], &want)?;
                    ensure(o[..d].iter().chain(&o[d + 243..]).all(|t| *t == 1), &format!("{}: wrote elsewhere", what))?;
                    let o = tr(&o); eqv(&format!("{}: restored from within a longer buffer", what), &tvt(&Spongos::from_inner(o.slice().drop(d).take(243)).to_inner_trits()), &want)?;
                    real[j] = if n % 2 == 0 { Spongos::from_inner_trits(&saved) } else { Spongos::from_inner(saved.slice()) };
                    eqv(&format!("{}: saved again after restoring", what), &tvt(&real[j].to_inner_trits()), &want)?;
                    let mut s = RefSp::new(); s.st[RATE..].copy_from_slice(&want); refs[j] = s;
                } else {
                    let s = real[i].clone();
                    ensure(guarded(|| s.to_inner_trits()).is_err(), &format!("{}: saved although input is pending", what))?
                }
            }
            o => panic!("harness: op {}", o),
        }
        stat(&format!("op_{}", op), 1);
    }
    for (i, s) in case.get("sp").a().iter().enumerate() {
        let r = RefSp { st: ev.nodes[s.get("node").u()].clone(), out: ev.term(s.get("out")), pos: s.get("pos").u() };
        if r != refs[i] { 
            // the outer part of st is irrelevant below pos only after overwriting; compare observably
            let (mut a, mut b) = (r.clone(), refs[i].clone());
            if a.squeeze(729) != b.squeeze(729) { panic!("harness: reference end state differs from the specification") }
        }
        probe(&format!("sponge {}", i + 1), &real[i], &r)?;
    }
    stat("nodes", case.get("heap").a().len() as u64);
    Ok(())
}
