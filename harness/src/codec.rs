//! Replay of spec/CodecGen.tla items.
use crate::common::*;
use crate::json::*;
use crate::refimpl::*;
use iota_mam::pb3::{self, Absorb, Mask, Size, Trint3, Trint6, Trint9, Trint18};
use iota_mam::spongos::Spongos;
use iota_mam::trits::{self, TritSlice, TritSliceMut, Trits};

const SIZE_MAX: i128 = 2_026_277_576_509_488_133;

/// a pair of equal keyed sponges: the one of the code, and the reference
fn keyed(k: usize) -> (Spongos, RefSp) {
    let mut s = Spongos::init(); let mut r = RefSp::new();
    let key = atom("codeckey", k);
    s.absorb(sl(&key)); r.absorb(&key);
    if k > 0 { s.commit(); r.commit() }
    (s, r)
}
fn probe(what: &str, s: &Spongos, r: &RefSp) -> R {
    let (mut a, mut b) = (s.clone(), r.clone());
    a.commit(); b.commit();
    eqv(&format!("{}: sponge afterwards", what), &tvt(&a.squeeze_trits(243)), &b.squeeze(243))
}
/// wrap a field: gives the written trits, checks the count and the sponge
pub fn wrap_field<T: Absorb + Mask>(what: &str, v: &T, n: usize, code: &[u8], ks: usize) -> R {
    for mask in [false, true] {
        let (mut s, mut r) = keyed(ks);
        let want = if mask { r.encr(code) } else { r.absorb(code); code.to_vec() };
        let mut t = Trits::zero(n + 5);
        t.slice_mut().set_trit(2);
        let mut b = t.slice_mut();
        if mask { v.wrap_mask(&mut s, &mut b) } else { v.wrap_absorb(&mut s, &mut b) }
        eq(&format!("{}: trits written", what), b.dropped_size(), n)?;
        let g = tvt(&t);
        eqv(&format!("{}: wrapped (mask {})", what, mask), &g[..n], &want)?;
        eqv(&format!("{}: trits after the field", what), &g[n..], &[2; 5])?;
        probe(&format!("{} wrapped (mask {})", what, mask), &s, &r)?;
    }
    Ok(())
}
/// unwrap a field from its code followed by other trits
pub fn unwrap_field<T: Absorb + Mask>(what: &str, code: &[u8], extra: &[u8], ks: usize, chk: impl Fn(Result<T, pb3::Err>, usize) -> R) -> R {
    for mask in [false, true] {
        let (mut s, mut r) = keyed(ks);
        let mut wire = if mask { r.encr(code) } else { r.absorb(code); code.to_vec() };
        wire.extend_from_slice(extra);
        // at an offset in a larger buffer
        let mut w = vec![1, 2, 0, 1]; w.extend_from_slice(&wire);
        let t = tr(&w);
        let mut b = t.slice().drop(4);
        let x = if mask { T::unwrap_mask_sized(&mut s, &mut b) } else { T::unwrap_absorb_sized(&mut s, &mut b) };
        let ok = x.is_ok();
        chk(x, b.dropped_size() - 4).map_err(|e| format!("{} (mask {}): {}", what, mask, e))?;
        if ok && b.dropped_size() == 4 + code.len() { probe(&format!("{} unwrapped (mask {})", what, mask), &s, &r)?; }
    }
    Ok(())
}

fn size(c: &J) -> R {
    let (head, tail) = (c.get("head").n(), c.get("tail").ns());
    let mut code = c.get("trits").trits();
    for (x, v) in c.get("ttrits").a().iter().zip(&tail) {
        if x.trits() != bt(*v, 3) { panic!("harness: tryte trits") }
        code.extend(x.trits())
    }
    let ok = c.get("ok").b();
    let what = format!("size_t head {} trytes {:?}", head, tail);
    let ks = if tail.len() % 2 == 0 { 0 } else { 480 };
    let v = c.get("digits").ns().iter().rev().fold(0i128, |a, d| a * 27 + *d as i128);
    if ok && (v < 0 || v > SIZE_MAX) { panic!("harness: accepted value out of range") }
    let d = if ok { head as usize } else { 0 };
    // what is beyond the accepted codeword must stay unread
    let (own, rest) = if ok { code.split_at(3 + 3 * d) } else { (&code[..], &[][..]) };
    unwrap_field::<Size>(&what, own, rest, ks, |x, used| match x {
        Ok(s) => { ensure(ok, &format!("accepted as {:?}", s))?; eq("value", s.0 as i128, v)?; eq("trits consumed", used, 3 + 3 * d) }
        Err(e) => ensure(!ok, &format!("refused with {:?}, value {}", e, v)),
    })?;
    if ok {
        let n = v as usize;
        eq("size of the encoding", (Size(n).sizeof(), pb3::sizeof_sizet(n), pb3::sizeof_repeated(n)), (3 + 3 * d, 3 + 3 * d, 3 + 3 * d))?;
        wrap_field(&format!("size_t {}", n), &Size(n), 3 + 3 * d, own, ks)?;
        // every strict prefix is refused
        for cut in 0..own.len() {
            let (mut s, _) = keyed(ks);
            let t = tr(&own[..cut]);
            ensure(Size::unwrap_absorb_sized(&mut s, &mut t.slice()).is_err(), &format!("{}: accepted after {} trits", what, cut))?;
            let (mut s, mut r) = keyed(ks);
            let t = tr(&r.encr(own)[..cut]);
            ensure(Size::unwrap_mask_sized(&mut s, &mut t.slice()).is_err(), &format!("{}: accepted after {} masked trits", what, cut))?;
        }
        // the mutable forms
        let (mut s, mut r) = keyed(ks);
        let mut x = Size(7);
        let t = tr(&r.encr(own));
        x.unwrap_mask(&mut s, &mut t.slice()).map_err(|e| format!("{}: {:?}", what, e))?;
        eq(&what, x, Size(n))?;
        // digits of the value by the truncated-division helpers
        let mut m = n;
        for (i, dg) in c.get("digits").ns().iter().enumerate() {
            let (r, q) = trits::mods3_usize(m);
            eq(&format!("mods3_usize({}) of {} digit {}", m, n, i), (r as i64, q as i128 * 27 + r as i128), (*dg, m as i128))?;
            let (r1, q1) = trits::mods1_usize(m);
            eq(&format!("mods1_usize({})", m), (r1 as i64, q1 as i128 * 3 + r1 as i128), (bt(*dg, 1)[0] as i64 - if bt(*dg, 1)[0] == 2 { 3 } else { 0 }, m as i128))?;
            m = q;
        }
        stat("sizes_accepted", 1);
    } else { stat("sizes_refused", 1) }
    Ok(())
}

fn int(c: &J) -> R {
    let (k, v, ts) = (c.get("k").u(), c.get("v").n(), c.get("trits").trits());
    let what = format!("{}-trit integer {}", k, v);
    // raw words at several offsets: neighbours stay
    for off in [0usize, 1, 5] {
        let mut t = vec![2u8; off + k + 4];
        { let m = TritSliceMut::from_slice_mut(off + k + 4, &mut t).drop(off);
          match k { 1 => m.put1(v as i8), 3 => m.put3(v as i8), 6 => m.put6(v as i16), 9 => m.put9(v as i16), _ => m.put18(v as i32) } }
        let mut want = vec![2u8; off]; want.extend_from_slice(&ts); want.extend([2; 4]);
        eqv(&format!("{} written", what), &t, &want)?;
        let c = sl(&t).drop(off);
        let g = match k { 1 => c.get1() as i64, 3 => c.get3() as i64, 6 => c.get6() as i64, 9 => c.get9() as i64, _ => c.get18() as i64 };
        eq(&format!("{} read", what), g, v)?;
    }
    macro_rules! field { ($t:ident, $n:expr) => {{
        eq("field size", <$t as pb3::TrintField>::sizeof(), $n)?;
        let ks = if v % 2 == 0 { 0 } else { 485 };
        wrap_field(&what, &$t(v as _), $n, &ts, ks)?;
        unwrap_field::<$t>(&what, &ts, &[1, 0], ks, |x, used| { eq("value", x.map(|y| y.0 as i64), Ok(v))?; eq("trits consumed", used, $n) })?;
        for cut in (0..ts.len()).filter(|_| k <= 6 || v % 61 == 0) {
            unwrap_field::<$t>(&what, &ts[..cut], &[], ks, |x, _| ensure(x.is_err(), &format!("accepted after {} trits", cut)))?;
        }
        let (mut s, mut r) = keyed(ks);
        let mut x = $t(1);
        let t = tr(&r.encr(&ts));
        Mask::unwrap_mask(&mut x, &mut s, &mut t.slice()).map_err(|e| format!("{}: {:?}", what, e))?;
        eq(&what, x.0 as i64, v)?;
        let t = tr(&ts); let (mut s, _) = keyed(ks);
        let mut x = $t(1);
        Absorb::unwrap_absorb(&mut x, &mut s, &mut t.slice()).map_err(|e| format!("{}: {:?}", what, e))?;
        eq(&what, x.0 as i64, v)?;
        let mut x = $t(1); let mut b = t.slice();
        pb3::TrintField::decode(&mut x, &mut b).map_err(|e| format!("{}: {:?}", what, e))?;
        eq(&what, (x.0 as i64, b.size()), (v, 0))?;
    }} }
    match k { 3 => field!(Trint3, 3), 6 => field!(Trint6, 6), 9 => field!(Trint9, 9), 18 => field!(Trint18, 18), _ => () }
    if k == 3 {
        let ty = ts[0] + 3 * ts[1] + 9 * ts[2];
        // unsigned trytes number the values modulo 27; their trits are the unsigned base-3 digits
        let um = v.rem_euclid(27) as u8;
        eq("tryte", (trits::tryte_from_trint3(v as i8), trits::tryte_to_trint3(um) as i64), (um, v))?;
        let mut t = vec![2u8; 7];
        TritSliceMut::from_slice_mut(7, &mut t).drop(2).put_tryte(ty);
        eqv("tryte written", &t, &[2, 2, ts[0], ts[1], ts[2], 2, 2])?;
        eq("tryte read", sl(&t).drop(2).get_tryte(), ty)?;
    }
    stat("integers", 1);
    Ok(())
}

fn mods(c: &J) -> R {
    let v = c.get("v").n() as i32;
    for (m, f) in [("3", (|t| { let (r, q) = trits::mods1(t); (r as i64, q as i64) }) as fn(i32) -> (i64, i64)),
                   ("27", |t| { let (r, q) = trits::mods3(t); (r as i64, q as i64) }),
                   ("19683", |t| { let (r, q) = trits::mods9(t); (r as i64, q as i64) })] {
        let w = c.get("r").get(m).ns();
        if w.is_empty() { continue }
        eq(&format!("remainder and quotient of {} by {}", v, m), f(v), (w[0], w[1]))?;
    }
    if v >= 0 {
        // the same digits for usize arguments, near both ends of the range
        for u in [v as usize, usize::MAX - v as usize, (v as usize) << 32, SIZE_MAX as usize - v as usize] {
            let b = |m: i128| { let r = (u as i128).rem_euclid(m); let r = if r > m / 2 { r - m } else { r }; (r, (u as i128 - r) / m) };
            let (r, q) = trits::mods1_usize(u); eq(&format!("mods1_usize({})", u), (r as i128, q as i128), b(3))?;
            let (r, q) = trits::mods3_usize(u); eq(&format!("mods3_usize({})", u), (r as i128, q as i128), b(27))?;
        }
    }
    Ok(())
}

fn put_str(n: usize, s: &str) -> (bool, Vec<u8>) {
    let mut t = vec![2u8; n + 6];
    let ok = TritSliceMut::from_slice_mut(n + 6, &mut t).drop(3).take(n).from_str(s);
    if t[..3] != [2; 3] || t[n + 3..] != [2; 3] { return (ok, vec![9]) }
    (ok, t[3..n + 3].to_vec())
}
fn strings(c: &J) -> R {
    let s: String = c.get("s").a().iter().map(|x| x.s()).collect();
    let (ts, extra) = (c.get("trits").trits(), c.get("extra").trits());
    let full = { let mut f = ts.clone(); f.extend_from_slice(&extra); f };
    let es: String = c.get("es").a().iter().map(|x| x.s()).collect();
    let printed = format!("{}{}", s, es);
    // string to trits
    let t = Trits::from_str(&s).ok_or(format!("string {:?} refused", s))?;
    eqv(&format!("trits of {:?}", s), &tvt(&t), &ts)?;
    // trits to string, incomplete last tryte padded; also from the middle of a buffer
    let f = tr(&full);
    eq("printed trits", f.to_str(), printed.clone())?;
    eq("displayed trits", format!("{}", f), printed.clone())?;
    for off in [1usize, 2, 4] {
        let mut w = vec![1u8; off]; w.extend_from_slice(&full); w.extend([2, 2, 1]);
        let x = sl(&w).drop(off).take(full.len());
        eq("printed slice", (x.to_str(), format!("{}", x)), (printed.clone(), printed.clone()))?;
        let mut w2 = w.clone();
        eq("displayed mutable slice", format!("{}", TritSliceMut::from_slice_mut(w2.len(), &mut w2).drop(off).take(full.len())), printed.clone())?;
    }
    // reading into a slice of any size: accepted iff no non-zero trit is beyond it
    for n in [full.len(), ts.len(), ts.len() + 4, ts.len().saturating_sub(1), ts.len().saturating_sub(2)] {
        let want = ts.iter().skip(n).all(|&x| x == 0);
        let (ok, got) = put_str(n, &s);
        eq(&format!("{:?} into {} trits", s, n), ok, want)?;
        if want { let m = n.min(ts.len()); eqv(&format!("{:?} into {} trits", s, n), &got[..m], &ts[..m])?; eqv("trits after the string", &got[m..], &vec![2; n - m])? }
        else if got == [9] { return Err(format!("{:?} into {} trits: wrote outside", s, n)) }
    }
    // cycling
    if !s.is_empty() { let n = 2 * ts.len() + 1; eqv("cycled string", &tvt(&Trits::cycle_str(n, &s)), &(0..n).map(|i| ts[i % ts.len()]).collect::<Vec<_>>())?; }
    // one foreign character anywhere
    for (p, bad) in (0..=s.len()).flat_map(|p| ["a", "z", "0", "8", "@", "[", ":", "/", " ", "-", "\u{141}", "\u{e9}", "\u{1F139}", "\0", "\u{139}"].iter().map(move |b| (p, b))) {
        let x = format!("{}{}{}", &s[..p], bad, &s[p..]);
        ensure(Trits::from_str(&x).is_none(), &format!("string {:?} accepted", x))?;
        ensure(!put_str(3 * x.len(), &x).0, &format!("string {:?} accepted by a slice", x))?;
        if s.len() > 6 && p > 2 && p + 2 < s.len() { stat("foreign_middle", 1) }
    }
    stat("strings", 1);
    Ok(())
}
fn alphabet(c: &J) -> R {
    let a: Vec<char> = c.get("a").a().iter().map(|x| x.s().chars().next().unwrap()).collect();
    let v = c.get("v").ns();
    for (k, &ch) in a.iter().enumerate() {
        let ts = c.get("trits").a()[k].trits();
        eq("tryte character", (trits::tryte_to_char(k as u8), trits::tryte_from_char(ch)), (ch, Some(k as u8)))?;
        eq("trint3 character", (trits::trint3_to_char(v[k] as i8), trits::trint3_from_char(ch)), (ch, Some(v[k] as i8)))?;
        eq("tryte and trint3", (trits::tryte_to_trint3(k as u8) as i64, trits::tryte_from_trint3(v[k] as i8)), (v[k], k as u8))?;
        eqv("trits of the character", &tvt(&Trits::from_str(&ch.to_string()).ok_or("refused")?), &ts)?;
        eq("character of the trits", sl(&ts).get_char(), ch)?;
    }
    // every other Unicode character is refused
    let mut n = 0u64;
    for u in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(u) {
            if a.contains(&ch) { continue }
            n += 1;
            ensure(trits::tryte_from_char(ch).is_none() && trits::trint3_from_char(ch).is_none(), &format!("character {:?} accepted", ch))?;
            let mut t = [1u8; 3];
            ensure(!TritSliceMut::from_slice_mut(3, &mut t).put_char(ch) && Trits::from_str(ch.encode_utf8(&mut [0; 4])).is_none(), &format!("character {:?} accepted", ch))?;
        }
    }
    stat("foreign_characters", n);
    Ok(())
}
pub fn replay(c: &J) -> R {
    match c.get("t").s() { "size" => size(c), "int" => int(c), "mod" => mods(c), "str" => strings(c), "alphabet" => alphabet(c), t => panic!("harness: codec {}", t) }
}
#[allow(dead_code)] fn _t(_: TritSlice) {}
