//! Replay of behaviours of spec/Slice.tla on iota_mam::trits slices.
use crate::common::*;
use crate::json::*;
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

type M = TritSliceMut<'static>;
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn b(x: bool) -> i64 { x as i64 }

pub fn replay(case: &J) -> R {
    let hist = case.get("hist").a();
    let mut bufs: Vec<Vec<u8>> = hist[0].get("buf").a().iter().map(|x| x.trits()).collect();
    let mut exp = bufs.clone();
    let whole = |bufs: &mut Vec<Vec<u8>>, i: usize| -> M { let n = bufs[i].len(); M::from_raw_ptr(n, bufs[i].as_mut_ptr()) };
    let mut s: Vec<M> = hist[0].get("sl").a().iter().map(|x| whole(&mut bufs, x.get("b").u() - 1)).collect();
    for (n, h) in hist.iter().enumerate().skip(1) {
        let op = h.get("op").s();
        let (i, j, l) = (h.get("i").u().wrapping_sub(1), h.get("j").u().wrapping_sub(1), h.get("l").u().wrapping_sub(1));
        let k = h.get("k").n(); let ku = k as usize;
        let what = format!("step {} {} (argument {})", n + 1, op, k);
        let r = h.get("r").a();
        let ri = |x: usize| r[x].n();
        // ranges: the mutable and the constant slice must agree
        macro_rules! range { ($m:expr, $c:expr) => {{ let (m, c) = ($m, $c); let cc: TritSlice = c;
            eq(&format!("{}: constant slice", what), (cc.dropped_size(), cc.total_size(), cc.size()), (m.dropped_size(), m.total_size(), m.size()))?;
            ensure(cc.is_same(m.as_const()), &format!("{}: constant slice elsewhere", what))?; s[j] = m; }} }
        let si = if i < s.len() { s[i] } else { s[0] };
        match op {
            "take" => range!(si.take(ku), si.as_const().take(ku)),
            "drop" => range!(si.drop(ku), si.as_const().drop(ku)),
            "take_min" => range!(si.take_min(ku), si.as_const().take_min(ku)),
            "drop_min" => range!(si.drop_min(ku), si.as_const().drop_min(ku)),
            "pickup" => range!(si.pickup(ku), si.as_const().pickup(ku)),
            "pickup_all" => range!(si.pickup_all(), si.as_const().pickup_all()),
            "drop_all" => range!(si.drop_all(), si.as_const().drop_all()),
            "dropped" => range!(si.dropped(), si.as_const().dropped()),
            "diff" => range!(si.diff(s[j]), si.as_const().diff(s[j].as_const())),
            "whole" => s[j] = whole(&mut bufs, i),
            "split_at" | "split_at_min" => {
                let ((a, c), (x, y)) = if op == "split_at" { (si.split_at(ku), si.as_const().split_at(ku)) } else { (si.split_at_min(ku), si.as_const().split_at_min(ku)) };
                for (m, q) in [(a, x), (c, y)] { eq(&what, (q.dropped_size(), q.total_size()), (m.dropped_size(), m.total_size()))?; }
                s[i] = a; s[j] = c;
            }
            "advance" => {
                let mut m = si; let t = m.advance(ku);
                let mut c = si.as_const(); let u = c.advance(ku);
                eq(&what, (c.dropped_size(), c.total_size(), u.dropped_size(), u.total_size()), (m.dropped_size(), m.total_size(), t.dropped_size(), t.total_size()))?;
                s[i] = m; s[j] = t;
            }
            "eq_min" => {
                let (e, q) = si.eq_min(s[j]); eq(&what, (b(e), q as i64), (ri(0), ri(1)))?;
                let (e, q) = si.as_const().eq_min(s[j].as_const()); eq(&what, (b(e), q as i64), (ri(0), ri(1)))?;
            }
            "eq" => {
                eq(&what, b(si.take(ku).eq(s[j].take(ku))), ri(0))?;
                eq(&what, b(si.as_const().take(ku).eq(s[j].as_const().take(ku))), ri(0))?;
            }
            "cmp" => {
                eq(&what, b(si == s[j]), ri(0))?; eq(&what, b(si.as_const() == s[j].as_const()), ri(0))?;
                eq(&what, b(si.as_const() != s[j].as_const()), 1 - ri(0))?;
                let (x, y) = (si.as_const().clone_trits(), s[j].as_const().clone_trits());
                eq(&format!("{}: as Trits", what), b(x == y), ri(0))?;
                if ri(0) == 1 { eq(&format!("{}: hashes", what), hash(&x), hash(&y))? }
            }
            "is_same" => { eq(&what, b(si.is_same(s[j])), ri(0))?; eq(&what, b(si.as_const().is_same(s[j].as_const())), ri(0))? }
            "is_overlapped" => { eq(&what, b(si.is_overlapped(s[j])), ri(0))?; eq(&what, b(si.as_const().is_overlapped(s[j].as_const())), ri(0))? }
            "size_min" => { eq(&what, si.size_min(ku) as i64, ri(0))?; eq(&what, si.as_const().size_min(ku) as i64, ri(0))? }
            "chunks" => {
                let c = si.as_const().chunks(ku);
                eq(&format!("{}: number", what), c.len(), r.len())?;
                for (x, y) in c.iter().zip(r) { eqv(&what, &tvt(x), &y.trits())? }
            }
            "gets" => {
                let (c, z) = (si.as_const(), si.size());
                if z >= 1 { eq("get1", c.get1() as i64, ri(0))?; eq("get_trit", c.get_trit() as i64, ri(0).rem_euclid(3))?; }
                if z >= 3 { eq("get3", c.get3() as i64, ri(1))?; eq("get_tryte", c.get_tryte() as i64, ri(5))?; }
                if z >= 6 { eq("get6", c.get6() as i64, ri(2))? }
                if z >= 9 { eq("get9", c.get9() as i64, ri(3))? }
                if z >= 18 { eq("get18", c.get18() as i64, ri(4))? }
                let mut v = vec![0i8; z]; c.get1s(&mut v);
                eqv("get1s", &v.iter().map(|x| x.rem_euclid(3) as u8).collect::<Vec<_>>(), &tv(c))?;
            }
            "clone" => {
                let want = h.get("r").trits();
                let t = si.as_const().clone_trits();
                eqv(&what, &tvt(&t), &want)?;
                let u = Trits::from_slice(si.as_const());
                ensure(t == u && hash(&t) == hash(&u) && t.size() == want.len() && t.is_empty() == want.is_empty(), &format!("{}: clones differ", what))?;
                ensure(tvt(&tr(&want)) == want, &what)?;
            }
            "set_trit" => si.set_trit(k as u8),
            "set_zero" => si.set_zero(),
            "inc" => { let o = si.inc(); eq(&format!("{}: no overflow", what), b(o), ri(0))? }
            "put18" => si.put18(k as i32), "put9" => si.put9(k as i16), "put6" => si.put6(k as i16), "put3" => si.put3(k as i8),
            "put1" => si.put1(k as i8), "put_trit" => si.put_trit(k as u8), "put_tryte" => si.put_tryte(k as u8),
            "put_trits" => { let v = h.get("r").trits(); if n % 2 == 0 { si.put_trits(&v) } else { si.put1s(&v.iter().map(|&x| if x == 2 { -1 } else { x as i8 }).collect::<Vec<_>>()) } }
            "copy" => si.as_const().take(ku).copy(s[j].take(ku)),
            "copy_but" => { // a copy but for one trit
                si.as_const().take(ku).copy(s[j].take(ku)); s[j].drop(l).put_trit(ri(0) as u8);
                let (x, y, e) = (si.take(ku), s[j].take(ku), ri(1));
                eq(&format!("{}: eq", what), b(x.eq(y)), e)?; eq(&format!("{}: eq", what), b(x.as_const().eq(y.as_const())), e)?;
                eq(&format!("{}: eq_min", what), b(x.eq_min(y).0), e)?; eq(&format!("{}: eq_min", what), b(y.as_const().eq_min(x.as_const()).0), e)?;
                eq(&format!("{}: ==", what), b(x == y), e)?; eq(&format!("{}: ==", what), b(y.as_const() == x.as_const()), e)?;
                eq(&format!("{}: as Trits", what), b(x.as_const().clone_trits() == y.as_const().clone_trits()), e)?;
            }
            "copy_min" => { let q = si.as_const().copy_min(s[j]); eq(&what, q as i64, ri(0))? }
            "cycle" => si.cycle(s[j].as_const()),
            "swap_add" => si.take(ku).swap_add(s[j].take(ku)),
            "swap_sub" => si.take(ku).swap_sub(s[j].take(ku)),
            "swap_add_min" => { let q = si.swap_add_min(s[j]); eq(&what, q as i64, ri(0))? }
            "swap_sub_min" => { let q = si.swap_sub_min(s[j]); eq(&what, q as i64, ri(0))? }
            "copy_add" => si.as_const().take(ku).copy_add(s[j].take(ku), s[l].take(ku)),
            "copy_sub" => si.as_const().take(ku).copy_sub(s[j].take(ku), s[l].take(ku)),
            "copy_add_min" => { let q = si.as_const().take(ku).copy_add_min(s[j], s[l].take(ku)); eq(&what, q as i64, ri(0))? }
            "copy_sub_min" => { let q = si.as_const().take(ku).copy_sub_min(s[j], s[l].take(ku)); eq(&what, q as i64, ri(0))? }
            o => panic!("harness: slice op {}", o),
        }
        stat(&format!("op_{}", op), 1);
        if !h.get("buf").a().is_empty() { exp = h.get("buf").a().iter().map(|x| x.trits()).collect(); }
        for (q, (g, w)) in bufs.iter().zip(exp.iter()).enumerate() { eqv(&format!("{}: buffer {}", what, q + 1), g, w)? }
        for (q, (g, w)) in s.iter().zip(h.get("sl").a()).enumerate() {
            let (d, m, bi) = (w.get("d").u(), w.get("n").u(), w.get("b").u() - 1);
            let c = g.as_const();
            eq(&format!("{}: slice {} (dropped, total)", what, q + 1), (g.dropped_size(), g.total_size()), (d, m))?;
            eq(&format!("{}: slice {} sizes", what, q + 1), (g.size(), g.avail_size(), g.is_empty(), c.size(), c.avail_size(), c.is_empty(), c.dropped_size(), c.total_size()), (m - d, m - d, m == d, m - d, m - d, m == d, d, m))?;
            eqv(&format!("{}: slice {} content", what, q + 1), &tv(g.as_const()), &exp[bi][d..m])?;
        }
    }
    // trits built by cycling
    let t = tr(&exp[0]);
    for n in [0, 1, exp[0].len(), 2 * exp[0].len() + 1] {
        eqv("cycle_trits", &tvt(&Trits::cycle_trits(n, &t)), &(0..n).map(|i| exp[0][i % exp[0].len()]).collect::<Vec<_>>())?;
    }
    Ok(())
}
