//! Replay of spec/RingGen.tla: programs over polynomial registers.
use crate::common::*;
use crate::json::*;
use crate::refimpl::{self as rf, N, Q};
use iota_mam::poly::Poly;
use iota_mam::trits::Trits;

fn dense(j: &J) -> rf::Poly { let mut p = vec![0; N]; for e in j.a() { let e = e.ns(); p[e[0] as usize] = e[1] } p }
fn trits(p: &Poly) -> Vec<u8> { let mut t = tr(&vec![1; 9 * N]); p.to_trits(t.slice_mut()); tvt(&t) }
fn load(v: &rf::Poly) -> Result<Poly, String> { let mut p = Poly::new(); if p.from_trits(tr(&rf::ptrits(v)).slice()) { Ok(p) } else { Err("a polynomial in range is refused".into()) } }
fn smallt(v: &rf::Poly) -> Trits { tr(&v.iter().map(|&x| x.rem_euclid(3) as u8).collect::<Vec<_>>()) }
/// no odd power of the root of unity is a zero
fn invertible(v: &rf::Poly) -> bool {
    let mut g = vec![1i64; 2 * N];
    for i in 1..2 * N { g[i] = g[i - 1] * 7 % Q }
    let nz: Vec<(usize, i64)> = v.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i, *c)).collect();
    (0..N).all(|j| nz.iter().fold(0, |a, (i, c)| a + c * g[(2 * j + 1) * i % (2 * N)]) % Q != 0)
}
fn plain(p: &Poly, form: &str) -> Poly { let mut q = *p; if form == "ntt" { q.intt() } q }
fn check(what: &str, p: &Poly, form: &str, want: &rf::Poly) -> R {
    let q = plain(p, form);
    eqv(&format!("{}: coefficients", what), &trits(&q), &rf::ptrits(want))?;
    let mut r = tr(&vec![2; N]);
    q.round_to_trits(r.slice_mut());
    eqv(&format!("{}: coefficients modulo 3", what), &tvt(&r), &rf::pmod3(want))?;
    let l = load(want)?;
    ensure(l == q, &format!("{}: unequal to the same polynomial loaded from trits", what))?;
    let mut t = q; t.ntt();
    if form == "ntt" { ensure(t == *p, &format!("{}: transforming back and again gives another polynomial", what))? }
    let u = t; t.intt();
    ensure(t == q, &format!("{}: the inverse transform does not undo the transform", what))?;
    let _ = u;
    Ok(())
}
fn refused(p: rf::Poly, deg: usize, c: i64) -> R {
    let mut t = rf::ptrits(&p);
    t[9 * deg..9 * deg + 9].copy_from_slice(&rf::bt(c, 9));
    let mut q = Poly::new();
    ensure(!q.from_trits(tr(&t).slice()), &format!("coefficient {} of degree {} accepted", c, deg))
}
/// pointwise operations over runs of coefficient values
fn scan(c: &J) -> R {
    let (op, a, b, r) = (c.get("op").s(), c.get("a").ns(), c.get("b").ns(), c.get("r").ns());
    let p = load(&a)?;
    eqv("coefficients written back", &trits(&p), &rf::ptrits(&a))?;
    let what = format!("{} on coefficients {}..{}", op, a[0], a[N - 1]);
    let mut x = p;
    match op {
        "add" => x.add(&load(&b)?), "sub" => x.sub(&load(&b)?), "conv" => x.conv(&load(&b)?),
        "inv" => { ensure(p.has_inv() == a.iter().all(|&v| v != 0), &format!("{}: invertibility", what))?; x.inv() }
        "mul3" => x.small_mul3(),
        "round" => x.round_small(),
        "small" => { let mut y = p; x.add_small(smallt(&b).slice()); y.sub_small(smallt(&b).slice()); eqv(&format!("{}: sub_small", what), &trits(&y), &rf::ptrits(&a.iter().zip(&b).map(|(u, v)| rf::center(u - v)).collect::<Vec<_>>()))? }
        "add1" => { for i in 0..N { let mut z = vec![0; N]; z[0] = a[i]; let mut y = load(&z)?; y.small3_add1(); z[0] = r[i]; eqv(&format!("one more than {}", a[i]), &trits(&y), &rf::ptrits(&z))? } return Ok(()) }
        o => panic!("harness: scan {}", o),
    }
    let got = trits(&x);
    if op == "inv" { for i in 0..N { eq(&format!("inverse of {}", a[i]), rf::unbt(&got[9 * i..9 * i + 9]), r[i])? } return Ok(()) }
    for i in 0..N { eq(&format!("{}: {} and {}", what, a[i], b[i]), rf::unbt(&got[9 * i..9 * i + 9]), r[i])? }
    ensure(load(&r)? == x, &format!("{}: unequal to the result loaded from trits", what))?;
    let mut t = tr(&vec![2; N]); x.round_to_trits(t.slice_mut());
    eqv(&format!("{}: result modulo 3", what), &tvt(&t), &rf::pmod3(&r))?;
    stat("pointwise_values", N as u64);
    Ok(())
}
pub fn replay(c: &J) -> R {
    if c.get("t").s() == "scan" { return scan(c) }
    let hist = c.get("hist").a();
    let salt = hist.iter().map(|h| h.get("x").u() * 31 + h.get("arg").a().len()).fold(0usize, |a, x| a.wrapping_mul(7).wrapping_add(x));
    let mut regs: Vec<(Poly, rf::Poly, String)> = (0..3).map(|_| (Poly::new(), vec![0; N], "plain".to_string())).collect();
    for (n, h) in hist.iter().enumerate() {
        let (op, x, y) = (h.get("op").s(), h.get("x").u() - 1, h.get("y").u().wrapping_sub(1));
        let what = format!("op {} {}", n + 1, op);
        let arg = dense(h.get("arg"));
        let named = c.get("dense").b() && h.get("arg").a().is_empty() && op.starts_with("load");    // dense: a named polynomial
        stat(&format!("op_{}", op), 1);
        match op {
            "load" => {
                let v = if named {
                    let mut r = Rng::new(&format!("ring {} {}", salt, n));
                    (0..N).map(|i| match n % 4 { 0 => r.below(Q as usize) as i64 - Q / 2, 1 => [6144, -6144, 6143][r.below(3)], 2 => if i % 7 == 0 { 6144 } else { 0 }, _ => r.below(9) as i64 - 4 }).collect()
                } else { arg };
                let p = load(&v).map_err(|e| format!("{}: {}", what, e))?;
                regs[x] = (p, v, "plain".into());
            }
            "loadsmall" => {
                let v = if named { let mut r = Rng::new(&format!("rings {} {}", salt, n)); (0..N).map(|_| r.below(3) as i64 - 1).collect() } else { arg };
                regs[x].0.small_from_trits(smallt(&v).slice());
                regs[x].1 = v; regs[x].2 = "plain".into();
            }
            "badload" => { let e = h.get("arg").a()[0].ns(); refused(regs[x].1.clone(), e[0] as usize, e[1]).map_err(|e| format!("{}: {}", what, e))? }
            "add" => { let q = regs[y].clone(); regs[x].0.add(&q.0); regs[x].1 = rf::padd(&regs[x].1, &q.1) }
            "sub" => { let q = regs[y].clone(); regs[x].0.sub(&q.0); regs[x].1 = rf::psub(&regs[x].1, &q.1) }
            "conv" => { let q = regs[y].clone(); regs[x].0.conv(&q.0); regs[x].1 = rf::pmul(&regs[x].1, &q.1) }
            "mul" => {
                let (mut q, v, f) = regs[y].clone();
                if f == "plain" { q.ntt() }
                if regs[x].2 == "plain" { regs[x].0.ntt() }
                regs[x].0.conv(&q); regs[x].0.intt();
                regs[x].1 = rf::pmul(&regs[x].1, &v); regs[x].2 = "plain".into();
            }
            "copy" => regs[x] = regs[y].clone(),
            "ntt" => { regs[x].0.ntt(); regs[x].2 = "ntt".into() }
            "intt" => { regs[x].0.intt(); regs[x].2 = "plain".into() }
            "mul3" => { regs[x].0.small_mul3(); let v = regs[x].1.clone(); regs[x].1 = v.iter().map(|c| rf::center(3 * c)).collect() }
            "add1" => { regs[x].0.small3_add1(); regs[x].1[0] = rf::center(regs[x].1[0] + 1) }
            "round" => { regs[x].0.round_small(); let v = rf::pmod3(&regs[x].1); regs[x].1 = rf::small(&v) }
            "addsmall" => { regs[x].0.add_small(smallt(&arg).slice()); regs[x].1 = rf::padd(&regs[x].1, &arg) }
            "subsmall" => { regs[x].0.sub_small(smallt(&arg).slice()); regs[x].1 = rf::psub(&regs[x].1, &arg) }
            "invcheck" => {
                let (p, v, _) = &regs[x];
                let inv = invertible(v);
                eq(&format!("{}: has an inverse", what), p.has_inv(), inv)?;
                stat(if inv { "invertible" } else { "noninvertible" }, 1);
                if inv {
                    let mut t = *p; t.inv();
                    let mut u = t; u.conv(p);
                    let mut one = vec![0; N]; one[0] = 1;
                    check(&format!("{}: product with the inverse", what), &u, "ntt", &one)?;
                    t.inv();
                    ensure(t == *p, &format!("{}: the inverse of the inverse differs", what))?;
                }
            }
            o => panic!("harness: ring op {}", o),
        }
        let (p, v, f) = &regs[x];
        if f != h.get("form").s() { panic!("harness: form") }
        if !h.get("v").a().is_empty() && dense(h.get("v")) != *v { panic!("harness: reference value differs from spec/RingGen.tla at {}", what) }
        check(&what, p, f, v)?;
        let o = (x + 1 + n % 2) % 3;
        check(&format!("{}: register {}", what, o + 1), &regs[o].0, &regs[o].2, &regs[o].1)?;
    }
    Ok(())
}
