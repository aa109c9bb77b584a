//! Replay of spec/Pb3.tla: programs of PB3 commands, wrapped and unwrapped by the real functions.
use crate::common::*;
use crate::json::*;
use crate::msg::{encode, fingerprint, key_id, mss_pk, named, pair, party_prng, sk_at, term};
use crate::mss::pk_trits;
use crate::refimpl::{self as rf, RefSp};
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::{self, Absorb, Err as PErr, Mask, Size, Trint18, Trint3, Trint6, Trint9, TrintField, Trytes};
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, TritSliceMut, Trits};
use std::collections::HashMap;

fn state(k: usize) -> (Spongos, RefSp) {
    let (mut s, mut r) = (Spongos::init(), RefSp::new());
    let x = named(&format!("state{}", k), 243);
    s.absorb(sl(&x)); r.absorb(&x); s.commit(); r.commit();
    if k == 3 { let x = named("more", 100); s.absorb(sl(&x)); r.absorb(&x) }
    (s, r)
}
/// the numbers and trits a field holds
enum V { N(i64), T(Vec<u8>) }
fn value(x: &J) -> V {
    match x.get("t").s() { "tryte" | "size" => V::N(x.get("n").n()), "int" => V::N(x.get("v").n()), _ => V::T(term(x)) }
}
fn same(a: &V, b: &V) -> bool { match (a, b) { (V::N(a), V::N(b)) => a == b, (V::T(a), V::T(b)) => a == b, _ => false } }
fn width(o: &J) -> usize {
    let n = || term(o.get("x")).len();
    match o.get("ty").s() {
        "tryte" => if o.get("via").u() == 0 { pb3::sizeof_tryte() } else { pb3::sizeof_oneof() }, "trint6" => pb3::sizeof_trint(), "trint9" => pb3::sizeof_trint9(), "trint18" => <Trint18 as TrintField>::sizeof(),
        "size" => if o.get("via").u() == 0 { pb3::sizeof_sizet(o.get("x").get("n").u()) } else { pb3::sizeof_repeated(o.get("x").get("n").u()) },
        "ntrytes" => if n() % 3 == 0 { pb3::sizeof_ntrytes(n() / 3) } else { n() },
        "trytes" => if o.get("via").u() == 0 { Trytes::sizeof(n() / 3) } else { pb3::sizeof_trytes(n() / 3) },
        "msspk" => mss::PK_SIZE, "ntrupk" => ntru::PK_SIZE, t => panic!("harness: type {}", t),
    }
}
fn put<T: Absorb + Mask>(x: &T, mask: bool, s: &mut Spongos, b: &mut TritSliceMut) { if mask { x.wrap_mask(s, b) } else { x.wrap_absorb(s, b) } }
fn take<T: Absorb + Mask>(mut old: T, via: usize, mask: bool, s: &mut Spongos, b: &mut TritSlice) -> Result<T, PErr> {
    if via == 0 { return if mask { T::unwrap_mask_sized(s, b) } else { T::unwrap_absorb_sized(s, b) } }
    if mask { old.unwrap_mask(s, b)? } else { old.unwrap_absorb(s, b)? }
    Ok(old)
}
fn write(o: &J, s: &mut Spongos, b: &mut TritSliceMut) -> R {
    let before = b.size();
    let n = match o.get("op").s() {
        "field" => {
            let (m, via) = (o.get("ctl").s() == "mask", o.get("via").u());
            match (o.get("ty").s(), value(o.get("x"))) {
                ("tryte", V::N(v)) => match via { 0 => put(&Trint3(v as i8), m, s, b), 1 => put(&pb3::tryte(v as i8), m, s, b), _ => put(&pb3::oneof(v as i8), m, s, b) },
                ("trint6", V::N(v)) => put(&Trint6(v as i16), m, s, b),
                ("trint9", V::N(v)) => put(&Trint9(v as i16), m, s, b),
                ("trint18", V::N(v)) => put(&Trint18(v as i32), m, s, b),
                ("size", V::N(v)) => if via == 0 { put(&Size(v as usize), m, s, b) } else { put(&pb3::repeated(v as usize), m, s, b) },
                ("ntrytes", V::T(x)) => match (via, m) { (2, false) => pb3::wrap_absorb_trits(sl(&x), s, b), (2, true) => pb3::wrap_mask_trits(sl(&x), s, b), _ => put(&tr(&x), m, s, b) },
                ("trytes", V::T(x)) => match (via, m) { (2, false) => pb3::wrap_absorb_trytes(&tr(&x), s, b), (2, true) => pb3::wrap_mask_trytes(&tr(&x), s, b), _ => put(&Trytes(tr(&x)), m, s, b) },
                ("msspk", _) => put(&mss_pk(key_id(o.get("x").get("key"))), m, s, b),
                ("ntrupk", _) => put(&pair(o.get("x").get("pair")).1, m, s, b),
                _ => panic!("harness: field"),
            }
            width(o)
        }
        "external" => { s.absorb(sl(&term(o.get("x")))); 0 }
        "commit" => { s.commit(); 0 }
        "squeeze" => { s.squeeze_trits(o.get("n").u()); 0 }
        "joinlink" => { let k = o.get("ref").u(); pb3::join::wrap_join(sl(&named(&format!("link{}", k), 81)), &mut state(k).0, s, b); pb3::join::sizeof_join() }
        "join" => { s.join(&mut state(o.get("ref").u()).0); 0 }
        "mac" => { pb3::mac::wrap_mac(s, b); pb3::mac::sizeof_mac() }
        "mssig" => {
            let k = sk_at(key_id(o.get("key")), o.get("kn").u());
            if before % 2 == 0 { pb3::mssig::squeeze_wrap_mssig(&k, s, b) } else { let h = pb3::mssig::squeeze_mss_hash(s); pb3::mssig::wrap_mssig(h.slice(), &k, s, b) }
            pb3::mssig::sizeof_mssig(&k) }
        "kem" => { pb3::ntrukem::wrap_ntrukem(sl(&term(o.get("x"))), &pair(o.get("pair")).1, &party_prng(o.get("g").u()), sl(&term(o.get("n"))), s, b); pb3::ntrukem::sizeof_ntrukem() }
        "fork" => { let mut f = s.fork(); for q in o.get("sub").a() { write(q, &mut f, b)? } return Ok(()) }
        x => panic!("harness: op {}", x),
    };
    eq("trits written and advertised", before - b.size(), n)
}
struct Rd { vals: Vec<(V, V)> }
fn read(o: &J, s: &mut Spongos, b: &mut TritSlice, r: &mut Rd) -> Result<(), PErr> {
    match o.get("op").s() {
        "nothing" => {}
        "field" => {
            let (m, via) = (o.get("ctl").s() == "mask", o.get("via").u());
            let want = value(o.get("x"));
            let t3 = |v: Vec<u8>| V::T(v);
            let got = match o.get("ty").s() {
                "tryte" => V::N(if via < 2 { take(Trint3(5), via, m, s, b)?.0 } else { take(pb3::oneof(7), 1, m, s, b)?.0 } as i64),
                "trint6" => V::N(take(Trint6(5), via, m, s, b)?.0 as i64),
                "trint9" => V::N(take(Trint9(5), via, m, s, b)?.0 as i64),
                "trint18" => V::N(take(Trint18(5), via, m, s, b)?.0 as i64),
                "size" => V::N(take(Size(5), via, m, s, b)?.0 as i64),
                "ntrytes" => {
                    let mut x = Trits::zero(term(o.get("x")).len());
                    match (via, m) {
                        (1, false) => { let c = b.clone(); pb3::unwrap_absorb_n(x.size(), s, b)?; c.take(x.size()).copy(x.slice_mut()) }
                        (0, _) | (1, _) => { if m { x.unwrap_mask(s, b)? } else { x.unwrap_absorb(s, b)? } }
                        (_, false) => pb3::unwrap_absorb_trits(x.slice_mut(), s, b)?, (_, true) => pb3::unwrap_mask_trits(x.slice_mut(), s, b)?,
                    }
                    t3(tvt(&x))
                }
                "trytes" => t3(tvt(&match (via, m) { (2, false) => pb3::unwrap_absorb_trytes(s, b)?, (2, true) => pb3::unwrap_mask_trytes(s, b)?, _ => take(Trytes(tr(&atom("old", [3, 0, 300, 3000][b.size() % 4]))), via, m, s, b)?.0 })),
                "msspk" => t3(pk_trits(&take(mss_pk((1, 2, 0)), via, m, s, b)?)),
                "ntrupk" => t3(tv(take(pair(&parse("{\"g\":1,\"n\":1}")).1, via, m, s, b)?.trits())),
                _ => panic!("harness: field"),
            };
            r.vals.push((got, want));
        }
        "external" => s.absorb(sl(&term(o.get("x")))),
        "commit" => s.commit(),
        "squeeze" => { s.squeeze_trits(o.get("n").u()); }
        "joinlink" => {
            let swap = matches!(o, J::Obj(_)) && o.has("swap");
            pb3::join::unwrap_join(|id: TritSlice| (1..4).find(|k| tv(id) == named(&format!("link{}", k), 81)).map(|k| (state(if swap { 1 + k % 3 } else { k }).0, ())), s, b)?
        }
        "join" => s.join(&mut state(o.get("ref").u()).0),
        "mac" => pb3::mac::unwrap_mac(s, b)?,
        "mssig" => {
            let pk = mss_pk(key_id(o.get("key")));
            let two = b.size() % 2 == 0;
            if o.get("by").s() == "verify" { if two { let h = pb3::mssig::squeeze_mss_hash(s); pb3::mssig::unwrap_mssig_verify(h.slice(), &pk, s, b)? } else { pb3::mssig::squeeze_unwrap_mssig_verify(&pk, s, b)? } }
            else { let k = if two { let h = pb3::mssig::squeeze_mss_hash(s); pb3::mssig::unwrap_mssig_recover(h.slice(), s, b)? } else { pb3::mssig::squeeze_unwrap_mssig_recover(s, b)? }; r.vals.push((V::T(pk_trits(&k)), V::T(pk_trits(&pk)))) }
        }
        "kem" => { let mut k = Trits::zero(ntru::KEY_SIZE); pb3::ntrukem::unwrap_ntrukem(k.slice_mut(), &pair(o.get("pair")).0, s, b)?; r.vals.push((V::T(tvt(&k)), V::T(term(o.get("x"))))) }
        "fork" => { let mut f = s.fork(); for q in o.get("sub").a() { read(q, &mut f, b, r)? } }
        "nofork" => for q in o.get("sub").a() { read(q, s, b, r)? },
        x => panic!("harness: op {}", x),
    }
    Ok(())
}
pub fn replay(c: &J) -> R {
    let (prog, cmds, dev, log) = (c.get("prog").a(), c.get("cmds").a(), c.get("dev"), c.get("log").a());
    // ---- the reference
    let refs: HashMap<usize, RefSp> = (0..4).map(|k| (k, state(k).1)).collect();
    let mut rs = state(0).1;
    let (mut want, mut ends, mut rstates) = (vec![], vec![0], vec![]);
    for cs in cmds {
        let e = encode(cs.a(), rs, &refs, 0).expect("harness: reference");
        want.extend(e.buf); ends.push(want.len()); rs = e.s; rstates.push(rs.clone());
    }
    let probe = |what: &str, s: &Spongos, r: &RefSp| -> R { let mut r = r.clone(); r.absorb(&atom("fingerprint mark", 90)); r.commit(); eqv(&format!("{}: the sponge", what), &fingerprint(s), &r.squeeze(100)) };
    // ---- the writer
    let (off, spare) = (7, 11);
    let mut t = vec![2u8; off + want.len() + spare];
    let mut s = state(0).0;
    let mut prints = vec![];
    {
        let m = TritSliceMut::from_slice_mut(off + want.len() + spare, &mut t);
        let mut b = m.drop(off);
        for (i, o) in prog.iter().enumerate() {
            let what = format!("operation {} {}", i + 1, o.get("op").s());
            guarded(|| write(o, &mut s, &mut b)).and_then(|x| x).map_err(|e| format!("{}: {}", what, e))?;
            eq(&format!("{}: trits written", what), b.dropped_size() - off, ends[i + 1])?;
            probe(&what, &s, &rstates[i])?;
            prints.push(fingerprint(&s));
        }
    }
    eqv("wire", &t[off..off + want.len()], &want)?;
    eqv("before and after the wire", &[&t[..off], &t[off + want.len()..]].concat(), &vec![2; off + spare])?;
    stat("pb3_operations", prog.len() as u64);
    // ---- the reader
    let (di, kind) = (dev.get("i").u(), dev.get("k").s());
    let (mut wire, mut malformed) = (want.clone(), false);
    if kind == "alter" || kind == "cut" {
        // the chosen segment of the operation
        let mut segs = vec![];
        segments(cmds[di - 1].a(), ends[di - 1], &mut segs);
        if segs.last().map(|x| x.1) != Some(ends[di]) { panic!("harness: segments {:?} {}", segs, ends[di]) }
        let (a, e, sig) = segs[dev.get("s").u() - 1];
        let mut rng = Rng::new(&format!("{} {} {}", di, a, e));
        let o = &prog[di - 1];
        if kind == "alter" && o.get("op").s() == "field" && o.get("ty").s() == "ntrupk" {
            // one coefficient becomes the largest number nine trits can say, no coefficient at all
            let (some, plain) = ([9, 1024][rng.below(2)], term(o.get("x")));
            let k = rng.below(some);
            for q in 9 * k..9 * k + 9 { let d = 4 - plain[q]; wire[a + q] = (wire[a + q] + d) % 3 }
            malformed = true;
        } else if kind == "alter" { let lo = if sig { 18 } else { 0 }; let q = a + lo + rng.below(e - a - lo); wire[q] = (wire[q] + 1 + rng.below(2) as u8) % 3 } else { wire.truncate(a + rng.below(e - a)) }
    }
    stat(&format!("pb3_{}", kind), 1);
    let mut s = state(0).0;
    let w = tr(&wire);
    let mut b = w.slice();
    for (i, o) in prog.iter().enumerate() {
        let what = format!("reader ({} at operation {}): operation {} {}", kind, di, i + 1, o.get("op").s());
        let ops: &[J] = if i + 1 == di && kind != "alter" && kind != "cut" { c.get("alt").a() } else { std::slice::from_ref(o) };
        let mut r = Rd { vals: vec![] };
        let res = guarded(|| { for q in ops { read(q, &mut s, &mut b, &mut r)? } Ok::<_, PErr>(()) }).map_err(|e| format!("{}: panics: {}", what, e))?;
        let err = log[i].get("err").s();
        if err == "garbled" {
            if malformed && i + 1 == di { stat("pb3_malformed_key", 1); ensure(res.is_err(), &format!("{}: a key that is none is accepted", what))? }
            return Ok(())
        }
        let before = i + 1 < di || di == 0;
        match (err, res) {
            ("", Err(e)) => return Err(format!("{}: fails with {:?}", what, e)),
            ("", Ok(())) => {
                let same_sp = log[i].get("same").b();
                if before { for (g, w) in &r.vals { ensure(same(g, w), &format!("{}: another value than was sent", what))? } }
                // few trits read with another command can come out the same
                if i + 1 == di && kind == "ctl" && r.vals.iter().all(|(g, w)| same(g, w)) {
                    ensure(term(o.get("x")).len() < 30, &format!("{}: masked and sent in the clear is the same", what))?;
                    return Ok(());
                }
                if same_sp { eqv(&format!("{}: the sponge", what), &fingerprint(&s), &prints[i])? } else { ensure(fingerprint(&s) != prints[i], &format!("{}: the sponge is the writer's", what))? }
                if before || same_sp { eq(&format!("{}: input left", what), b.size() + want.len() - wire.len(), want.len() - ends[i + 1])? }
            }
            (_, Ok(())) => return Err(format!("{}: accepted, {} expected", what, err)),
            (_, Err(_)) => { stat("pb3_refused", 1); return Ok(()) }
        }
    }
    Ok(())
}
/// where the segments of the commands lie: (from, to, is it a signature)
fn segments(cs: &[J], mut at: usize, out: &mut Vec<(usize, usize, bool)>) -> usize {
    for c in cs {
        let n = match c.get("c").s() {
            "absorb" | "mask" => term(c.get("x")).len(), "join" => 81, "mac" => 243, "kem" => 9216,
            "sig" => 18 + 162 * 81 + 243 * key_id(c.get("key")).2,
            "fork" => { at = segments(c.get("sub").a(), at, out); continue }
            _ => continue,
        };
        out.push((at, at + n, c.get("c").s() == "sig")); at += n;
    }
    at
}
