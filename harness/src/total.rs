//! Replay of spec/Hostile.tla: every unwrap operation gives a value or an error.
use crate::common::*;
use crate::json::*;
use crate::msg::*;
use crate::refimpl::{self as rf, RefSp};
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::{self, Absorb, Err as PErr, Mask, OneOf, Size, Trint18, Trint3, Trint6, Trint9, Trytes};
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, Trits};
use std::collections::HashMap;

/// heap a reading may use: a fixed amount and some for every trit of input
fn allowed(n: usize) -> i64 { (4 << 20) + 64 * n as i64 }
/// f reads b from a slice; what lies behind the slice must not matter, nothing may crash, heap use is bounded
fn read<T>(what: &str, b: &[u8], expect: &str, f: impl Fn(TritSlice) -> Result<T, PErr>, show: impl Fn(&T) -> Vec<u8>) -> Result<Option<T>, String> {
    let mut first: Option<Result<Vec<u8>, String>> = None;
    let mut out = None;
    for (lead, past) in [(0usize, 0u8), (7, 1), (2, 2)] {
        let mut v = vec![2u8; lead]; v.extend_from_slice(b); v.extend(vec![past; 700]);
        let t = tr(&v);
        let s = t.slice().drop(lead).take(b.len());
        let (r, peak) = heap_peak(|| guarded(|| f(s)));
        let r = r.map_err(|e| { if e.starts_with("harness:") { panic!("{}", e) } format!("{}: panics: {}", what, e) })?;
        ensure(peak <= allowed(b.len()), &format!("{}: takes {} bytes of memory for {} trits of input", what, peak, b.len()))?;
        let o = match &r { Ok(x) => Ok(show(x)), Err(e) => Err(format!("{:?}", e)) };
        match &first { None => first = Some(o), Some(p) => ensure(*p == o, &format!("{}: what lies behind the input changes the outcome", what))? }
        out = Some(r);
    }
    let r = out.unwrap();
    match expect {
        "err" => ensure(r.is_err(), &format!("{}: accepted", what))?,
        "ok" => if let Err(e) = &r { return Err(format!("{}: refused: {:?}", what, e)) },
        "any" | "notsigner" => {}
        x => panic!("harness: expectation {}", x),
    }
    Ok(r.ok())
}
fn sponge() -> Spongos { let mut s = Spongos::init(); s.absorb(sl(&atom("total", 100))); s.commit(); s }
fn done(s: &Spongos, b: &TritSlice, v: &[u8]) -> Vec<u8> { let mut o = fingerprint(s); o.extend(v); o.extend((b.size() as u32).to_le_bytes()); o }
fn k1() -> (usize, usize, usize) { (1, 12, 1) }
fn pair1() -> (ntru::PrivateKey, ntru::PublicKey) { pair(&parse("{\"g\":1,\"n\":1}")) }
fn both<T: Absorb + Mask>(what: &str, b: &[u8], expect: &str, show: fn(&T) -> Vec<u8>) -> R {
    read(&format!("{} absorbed", what), b, expect, |mut t| { let mut s = sponge(); let x = T::unwrap_absorb_sized(&mut s, &mut t)?; Ok(done(&s, &t, &show(&x))) }, |x| x.clone())?;
    read(&format!("{} masked", what), b, expect, |mut t| { let mut s = sponge(); let x = T::unwrap_mask_sized(&mut s, &mut t)?; Ok(done(&s, &t, &show(&x))) }, |x| x.clone())?;
    Ok(())
}
fn prim(p: &str, b: &[u8], expect: &str) -> R {
    let what = format!("{} from {} trits {}", p, b.len(), short(b));
    let w = what.as_str();
    match p {
        "trint3" => both::<Trint3>(w, b, expect, |x| vec![x.0 as u8]),
        "trint6" => both::<Trint6>(w, b, expect, |x| x.0.to_le_bytes().to_vec()),
        "trint9" => both::<Trint9>(w, b, expect, |x| x.0.to_le_bytes().to_vec()),
        "trint18" => both::<Trint18>(w, b, expect, |x| x.0.to_le_bytes().to_vec()),
        "oneof" => both::<OneOf>(w, b, expect, |x| vec![x.0 as u8]),
        "size" => both::<Size>(w, b, expect, |x| x.0.to_le_bytes().to_vec()),
        "trytes" => both::<Trytes>(w, b, expect, |x| tvt(&x.0)),
        "msgid" => { read(w, b, expect, |mut t| { let mut s = sponge(); let _ = iota_mam::app::core::MsgId::unwrap_absorb_sized(&mut s, &mut t)?; Ok(done(&s, &t, &[])) }, |x| x.clone())?; Ok(()) }
        "msspk" => both::<mss::PublicKey>(w, b, expect, |x| crate::mss::pk_trits(x)),
        "ntrupk" => both::<ntru::PublicKey>(w, b, expect, |x| tv(x.trits())),
        "ntrytes7" => {
            for mask in [false, true] { read(w, b, expect, |mut t| { let mut s = sponge(); let mut x = Trits::zero(21); if mask { x.unwrap_mask(&mut s, &mut t)? } else { x.unwrap_absorb(&mut s, &mut t)? } Ok(done(&s, &t, &tvt(&x))) }, |x| x.clone())?; }
            Ok(())
        }
        "trits100" => {
            for mask in [false, true] { read(w, b, expect, |mut t| { let mut s = sponge(); let mut x = Trits::zero(100); if mask { pb3::unwrap_mask_trits(x.slice_mut(), &mut s, &mut t)? } else { pb3::unwrap_absorb_trits(x.slice_mut(), &mut s, &mut t)? } Ok(done(&s, &t, &tvt(&x))) }, |x| x.clone())?; }
            read(w, b, expect, |mut t| { let mut s = sponge(); pb3::unwrap_absorb_n(100, &mut s, &mut t)?; Ok(done(&s, &t, &[])) }, |x| x.clone())?;
            Ok(())
        }
        "link" => { read(w, b, expect, |mut t| { let mut s = sponge(); let v = pb3::join::unwrap_join(|id: TritSlice| if tv(id)[0] == 1 { None } else { Some((sponge(), ())) }, &mut s, &mut t)?; let _: () = v; Ok(done(&s, &t, &[])) }, |x| x.clone())?; Ok(()) }
        "kem" => { let sk = pair1().0; read(w, b, expect, |mut t| { let mut s = sponge(); let mut key = Trits::zero(ntru::KEY_SIZE); pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), &sk, &mut s, &mut t)?; Ok(done(&s, &t, &tvt(&key))) }, |x| x.clone())?; Ok(()) }
        "mac" => { read(w, b, expect, |mut t| { let mut s = sponge(); pb3::mac::unwrap_mac(&mut s, &mut t)?; Ok(done(&s, &t, &[])) }, |x| x.clone())?; Ok(()) }
        "sigverify" => { let pk = mss_pk(k1()); read(w, b, if expect == "any" { "err" } else { expect }, |mut t| { let mut s = sponge(); pb3::mssig::squeeze_unwrap_mssig_verify(&pk, &mut s, &mut t)?; Ok(done(&s, &t, &[])) }, |x| x.clone())?; Ok(()) }
        "sigrecover" => {
            let pk = mss_pk(k1());
            let r = read(w, b, expect, |mut t| { let mut s = sponge(); let k = pb3::mssig::squeeze_unwrap_mssig_recover(&mut s, &mut t)?; Ok((done(&s, &t, &crate::mss::pk_trits(&k)), k)) }, |x| x.0.clone())?;
            ensure(r.map_or(true, |x| x.1 != pk), &format!("{}: recovers a signer's key", w))
        }
        x => panic!("harness: primitive {}", x),
    }
}
fn reader<'a>(known: &'a Known, hdr: bool) -> Reader<'a> {
    let mut psks = HashMap::new(); psks.insert(tr(&named("pskid~80~1", 81)), tr(&named("psk~242~1", 243)));
    let mut sks = HashMap::new(); let (sk, pk) = pair1(); sks.insert(tr(&tv(pk.id())), sk.clone());
    Reader { names: vec![(named("msg1", 81), known)], hdr: if hdr { Some((appinst("app"), msgid("msg2"))) } else { None }, trust: Some(mss_pk(k1())), psks, sks, sk: Some(sk) }
}
fn link_state() -> (Known, RefSp) {
    let v = atom("msg link state", 300);
    let mut s = Spongos::init(); s.absorb(sl(&v)); s.commit();
    let mut r = RefSp::new(); r.absorb(&v); r.commit();
    (Known { s: Some(s), mss: Some(mss_pk((1, 13, 1))), ntru: Some(pair(&parse("{\"g\":2,\"n\":1}")).1) }, r)
}
fn show_read(r: &Read) -> Vec<u8> {
    let mut o = fingerprint(r.s.as_ref().unwrap());
    for v in [&r.typ, &r.pubp, &r.masked] { if let Some(v) = v { o.extend(v) } }
    if let Some(k) = &r.mss { o.extend(crate::mss::pk_trits(k)) }
    o.extend((r.rest as u32).to_le_bytes());
    o
}
fn message(what: &str, kind: &str, hdr: bool, b: &[u8], expect: &str) -> R {
    let (known, _) = link_state();
    let x = reader(&known, hdr);
    let r = read(what, b, expect, |t| unwrap_slice(kind, &x, t), show_read)?;
    if let Some(r) = r {
        ensure(r.rest <= b.len(), &format!("{}: leaves more than there was", what))?;
        if expect == "notsigner" { ensure(r.mss != Some(mss_pk(k1())), &format!("{}: recovers a signer's key", what))? }
    }
    Ok(())
}
fn random(c: &J) -> R {
    let (kind, start, n, no) = (c.get("kind").s(), c.get("start").s(), c.get("n").u(), c.get("no").u());
    let mut b = vec![];
    let hdr = start == "header" || start == "both";
    if hdr { let e = crate::msg::chars("SOME9TYPE"); b.extend(rf::bt(1, 3)); b.extend(rf::sizet(e.len() as u64 / 3)); b.extend(e) }
    if start == "link" || start == "both" { b.extend(named("msg1", 81)) }
    // small sizes are more interesting than noise
    match no % 3 { 0 => {} 1 => b.extend(rf::sizet((no % 40) as u64)), _ => { b.extend(atom("nonce", 81)); b.extend(rf::sizet((no % 5) as u64)); b.extend(named("pskid~80~1", 81)) } }
    b.extend(atom(&format!("random {} {} {}", kind, n, no), n));
    let expect = if b.is_empty() { "err" } else { c.get("expect").s() };
    message(&format!("{} from {} random trits {} ({})", kind, n, start, no), kind, hdr || kind == "header", &b, expect)?;
    if kind == "signed" { message(&format!("recovery from {} random trits {} ({})", n, start, no), "recover", hdr, &b, "notsigner")? }
    Ok(())
}
pub fn replay(c: &J) -> R {
    match c.get("t").s() {
        "prim" => {
            let (p, n) = (c.get("what").s(), c.get("n").u());
            let b = match c.get("fill").s() { "zero" => vec![0; n], "one" => vec![1; n], "two" => vec![2; n], x => atom(x, n) };
            prim(p, &b, c.get("expect").s())
        }
        "short" => {
            let (p, n) = (c.get("what").s(), c.get("n").u());
            for i in 0..3usize.pow(n as u32) {
                let mut b = vec![]; let mut k = i; for _ in 0..n { b.push((k % 3) as u8); k /= 3 }
                prim(p, &b, if n < match p { "trint6" => 6, _ => 3 } { "err" } else { "any" })?;
            }
            stat("short_strings", 3u64.pow(n as u32));
            Ok(())
        }
        "sig" => {
            let (h, k, n) = (c.get("h").n(), c.get("k").n(), c.get("n").u());
            let mut b = rf::bt(h, 4); b.extend(rf::bt(k, 14));
            b.extend(atom("signature body", n - 18));
            let what = format!("signature of {} trits claiming height {} and number {}", n, h, k);
            prim("sigverify", &b, "err").map_err(|e| format!("{}: {}", what, e))?;
            prim("sigrecover", &b, if c.get("expect").s() == "err" { "err" } else { "any" }).map_err(|e| format!("{}: {}", what, e))
        }
        "hostile" => {
            let kind = c.get("kind").s();
            let (_, rlink) = link_state();
            let mut refs = HashMap::new(); refs.insert(1, rlink);
            let mut o = encode(c.get("cmds").a(), RefSp::new(), &refs, 1).expect("harness: encoding");
            let n = o.buf.len(); o.buf.truncate(n - c.get("cut").u());
            if c.has("blank") { o.buf.extend(vec![0; c.get("pad").u()]) } else { o.buf.extend(atom("what follows", c.get("pad").u())) }
            let hdr = c.get("m").get("hdr").has("ver");
            let lie = c.get("cmds").a().iter().find(|x| x.has("x") && x.get("x").get("t").s() == "code").map(|x| x.show()).unwrap_or_default();
            message(&format!("{} with lying size {}", kind, lie), kind, hdr, &o.buf, c.get("expect").s())?;
            if kind == "signed" { message(&format!("recovery with lying size {}", lie), "recover", hdr, &o.buf, if c.get("expect").s() == "err" { "notsigner" } else { "any" })? }
            Ok(())
        }
        "random" => random(c),
        x => panic!("harness: case {}", x),
    }
}
