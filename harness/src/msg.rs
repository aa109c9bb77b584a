//! Replay of spec/World.tla, spec/Channel.tla and spec/Scripts.tla: parties publish and read messages.
//! A property looks only at the events it speaks about; an event outside it that does not go as specified
//! ends the case without a verdict.
use crate::common::*;
use crate::json::*;
use crate::mss::{nonce, pk_trits, prng_key};
use crate::refimpl::{self as rf, RefSp};
use iota_mam::app::channel::msg;
use iota_mam::app::core::{self, AppInst, MsgId};
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::{self, Absorb, Err as PErr, Trytes};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::{TritSlice, Trits};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

type Cache<K, V> = Mutex<Option<HashMap<K, Arc<OnceLock<V>>>>>;
fn cached<K: std::hash::Hash + Eq, V>(c: &'static Cache<K, V>, k: K) -> Arc<OnceLock<V>> {
    c.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).entry(k).or_default().clone()
}
// ---- interpretation of terms
thread_local! { static ALIASES: std::cell::Cell<bool> = Default::default() }
/// The identifier an NTRU key goes by: its own, or where the history begins so one its users agreed on, one trit away from the others'.
fn pkid(p: &J, k: &ntru::PublicKey) -> Vec<u8> {
    if !ALIASES.with(|a| a.get()) { return tv(k.id()) }
    let i = p.get("g").u() + 10 * (p.get("n").u() - 1);
    let (group, j) = (if i < 90 { String::new() } else { (i / 90).to_string() }, i % 90);
    let at = match j % 3 { 1 => 80 - j / 3, 2 => j / 3, _ => 40 + j / 3 };
    named(&format!("pkid{}~{}~{}", group, at, if i % 3 == 0 { 2 } else { 1 }), 81)
}
thread_local! { static CONSTANT: std::cell::RefCell<HashMap<String, u8>> = Default::default() }
fn shaped(d: u8, name: &str, n: usize) -> Vec<u8> {
    if d < 3 { return vec![d; n] }
    let mut v = atom(&format!("msg {}", if d == 10 { "same" } else { name }), n);
    let third = (n / 3).max(3.min(n));
    match d {
        3 => v[n - third..].fill(0),
        4 => v[..third].fill(0),
        5 | 6 => { v.fill(0); if n > 0 { v[if d == 5 { n - 1 } else { 0 }] = 1 } }
        7 => for i in 81..n { v[i] = v[i - 81] },
        _ => {}
    }
    v
}
/// named trits; "name~i~d" differs from name in trit i by d; some names stand for one trit throughout
pub fn named(name: &str, n: usize) -> Vec<u8> {
    let constant = |x: &str| CONSTANT.with(|c| c.borrow().get(x).copied());
    if let Some(d) = constant(name) { return shaped(d, name, n) }
    let mut p = name.split('~');
    let base = p.next().unwrap();
    let mut v = match constant(base) { Some(d) => shaped(d, base, n), None => atom(&format!("msg {}", base), n) };
    while let (Some(i), Some(d)) = (p.next(), p.next()) { let i: usize = i.parse().unwrap(); v[i] = (v[i] + d.parse::<u8>().unwrap()) % 3 }
    v
}
pub type KeyId = (usize, usize, usize);
pub fn key_id(j: &J) -> KeyId { (j.get("g").u(), j.get("n").u(), j.get("h").u()) }
pub fn sk_at(k: KeyId, kn: usize) -> mss::PrivateKey {
    static C: Cache<(KeyId, usize), mss::PrivateKey> = Mutex::new(None);
    cached(&C, (k, kn)).get_or_init(|| {
        if kn == 0 { return mss::PrivateKey::gen(&PRNG::init(tr(&prng_key(k.0)).slice()), tr(&nonce(k.1)).slice(), k.2) }
        let mut y = sk_at(k, kn - 1); y.next(); y
    }).clone()
}
pub fn mss_pk(k: KeyId) -> mss::PublicKey { sk_at(k, 0).public_key().clone() }
/// a public key which differs from k in trit q
fn near_pk(k: &mss::PublicKey, q: usize, d: usize) -> mss::PublicKey { let mut t = pk_trits(k); t[q] = (t[q] + d as u8) % 3; crate::mss::pk_from(&t) }
/// the ends and borders twice, one value of the others
fn w_near(q: usize, d: usize) -> bool { q < 3 || q > 230 || (q + d) % 2 == 0 }
fn prng_trits(g: usize) -> Vec<u8> { atom(&format!("party prng {}", g), 243) }
pub fn party_prng(g: usize) -> PRNG { PRNG::init(tr(&prng_trits(g)).slice()) }
pub fn pair(j: &J) -> (ntru::PrivateKey, ntru::PublicKey) {
    static C: Cache<(usize, usize), (ntru::PrivateKey, ntru::PublicKey)> = Mutex::new(None);
    let k = (j.get("g").u(), j.get("n").u());
    cached(&C, k).get_or_init(|| ntru::gen(&party_prng(k.0), tr(&atom(&format!("ntru pair {}", k.1), 60)).slice())).clone()
}
pub fn chars(s: &str) -> Vec<u8> { s.chars().flat_map(|c| rf::bt(match c { '9' => 0, c => { let i = c as i64 - 'A' as i64 + 1; if i > 13 { i - 27 } else { i } } }, 3)).collect() }
pub fn term(j: &J) -> Vec<u8> {
    match j.get("t").s() {
        "atom" => named(j.get("a").s(), j.get("n").u()),
        "size" => rf::sizet(j.get("n").u() as u64),
        "tryte" => rf::bt(j.get("n").n(), 3),
        "int" => rf::bt(j.get("v").n(), j.get("n").u()),
        "code" => { let mut v = rf::bt(j.get("head").n(), 3); for d in j.get("ds").a() { v.extend(rf::bt(d.n(), 3)) } v }
        "str" => chars(j.get("a").s()),
        "msspk" => pk_trits(&mss_pk(key_id(j.get("key")))),
        "ntrupk" => tv(pair(j.get("pair")).1.trits()),
        "badpk" => badpk(j.get("a").s()),
        "pkid" => pkid(j.get("pair"), &pair(j.get("pair")).1),
        "prng" => rf::prng(&prng_trits(j.get("g").u()), &[&term(j.get("n"))], 243),
        t => panic!("harness: term {}", t),
    }
}
/// trits of the size of an NTRU public key that are none
fn badpk(a: &str) -> Vec<u8> {
    match a {
        "zero" => vec![0; 9216],
        "big" => { let mut v = tv(pair(&parse("{\"g\":1,\"n\":1}")).1.trits()); v[..9].copy_from_slice(&rf::bt(6145, 9)); v }
        "alias" => { // a coefficient written out of range: the same polynomial modulo q
            let mut v = tv(pair(&parse("{\"g\":1,\"n\":1}")).1.trits());
            let i = (0..rf::N).find(|&i| { let c = rf::unbt(&v[9 * i..9 * i + 9]); c.abs() >= rf::Q - 9841 }).expect("harness: alias");
            let c = rf::unbt(&v[9 * i..9 * i + 9]);
            v[9 * i..9 * i + 9].copy_from_slice(&rf::bt(if c > 0 { c - rf::Q } else { c + rf::Q }, 9));
            v
        }
        "root" => { // multiplied by x - 7: not invertible, 7 being a root of x^1024+1
            let p = rf::pfrom(&tv(pair(&parse("{\"g\":1,\"n\":1}")).1.trits())).unwrap();
            let mut x = vec![0; rf::N]; x[1] = 1; x[0] = -7;
            rf::ptrits(&rf::pmul(&p, &x))
        }
        x => panic!("harness: badpk {}", x),
    }
}
fn trytes(v: &[u8]) -> Trytes { Trytes(tr(v)) }
pub fn msgid(name: &str) -> MsgId {
    let t = tr(&named(name, 81));
    MsgId::unwrap_absorb_sized(&mut Spongos::init(), &mut t.slice()).expect("harness: message id")
}
pub fn appinst(name: &str) -> AppInst { AppInst::verif_new(tr(&named(name, 243))) }
/// equal for equal sponges, different for different ones
pub fn fingerprint(s: &Spongos) -> Vec<u8> { let mut f = s.fork(); f.absorb(sl(&atom("fingerprint mark", 90))); f.commit(); tvt(&f.squeeze_trits(100)) }

// ---- the world
#[derive(Clone, Default)]
pub struct Known { pub s: Option<Spongos>, pub mss: Option<mss::PublicKey>, pub ntru: Option<ntru::PublicKey> }
struct Msg { m: J, st: usize, buf: Vec<u8>, segs: Vec<(usize, usize)>, fp: Vec<u8>, forged: bool }
#[derive(Default)]
struct World { prop: String, msgs: Vec<Msg>, know: Vec<HashMap<usize, Known>>, rings: Vec<Vec<(String, String)>>, class: HashMap<usize, Vec<u8>>, real: HashMap<usize, Spongos>, refs: HashMap<usize, RefSp> }
/// what a reader holds
pub struct Reader<'a> {
    pub names: Vec<(Vec<u8>, &'a Known)>, pub hdr: Option<(AppInst, MsgId)>, pub trust: Option<mss::PublicKey>,
    pub psks: HashMap<Trits, Trits>, pub sks: HashMap<Trits, ntru::PrivateKey>, pub sk: Option<ntru::PrivateKey>,
}
#[derive(Default)]
pub struct Read { pub typ: Option<Vec<u8>>, pub pubp: Option<Vec<u8>>, pub masked: Option<Vec<u8>>, pub mss: Option<mss::PublicKey>, pub ntru: Option<Option<ntru::PublicKey>>, pub s: Option<Spongos>, pub rest: usize }
fn nobody() -> mss::PublicKey { mss_pk((99, 99, 0)) }
/// run the unwrap function for a kind on b
pub fn unwrap_any(kind: &str, x: &Reader, buf: &[u8]) -> Result<Read, PErr> { unwrap_slice(kind, x, tr(buf).slice()) }
pub fn unwrap_slice(kind: &str, x: &Reader, mut b: TritSlice) -> Result<Read, PErr> {
    let mut s = Spongos::init();
    let mut r = Read::default();
    if let Some((a, i)) = &x.hdr { r.typ = Some(tvt(&core::msg::header::unwrap(a, i, &mut s, &mut b)?.0)) }
    let find = |id: TritSlice| { let v = tv(id); x.names.iter().find(|(n, _)| *n == v).map(|(_, k)| (*k).clone()) };
    let plain = |id: TritSlice| find(id).map(|k| (k.s.unwrap(), ()));
    match kind {
        "header" => {}
        "announce" => { let (p, n) = msg::announce::unwrap(&mut s, &mut b)?; r.mss = Some(p); r.ntru = Some(n) }
        "change_key" => r.mss = Some(msg::change_key::unwrap(|id: TritSlice| find(id).map(|k| (k.s.unwrap(), k.mss.unwrap_or_else(nobody))), &mut s, &mut b)?),
        "signed" => { let (p, m) = msg::signed_packet::unwrap_verify(plain, x.trust.as_ref().unwrap(), &mut s, &mut b)?; r.pubp = Some(tvt(&p.0)); r.masked = Some(tvt(&m.0)) }
        "recover" => { let (k, p, m) = msg::signed_packet::unwrap_recover(plain, &mut s, &mut b)?; r.mss = Some(k); r.pubp = Some(tvt(&p.0)); r.masked = Some(tvt(&m.0)) }
        "tagged" => { let (p, m) = msg::tagged_packet::unwrap(plain, &mut s, &mut b)?; r.pubp = Some(tvt(&p.0)); r.masked = Some(tvt(&m.0)) }
        "keyload" => msg::keyload::unwrap(plain, &x.psks, &x.sks, &mut s, &mut b)?,
        "skeyload" => { msg::keyload::unwrap(plain, &x.psks, &x.sks, &mut s, &mut b)?; pb3::mssig::squeeze_unwrap_mssig_verify(x.trust.as_ref().unwrap(), &mut s, &mut b)? }
        "subscribe" => r.ntru = Some(Some(msg::subscribe::unwrap(plain, x.sk.as_ref().unwrap(), &mut s, &mut b)?)),
        "unsubscribe" => r.ntru = Some(Some(msg::unsubscribe::unwrap(|id: TritSlice| find(id).map(|k| (k.s.unwrap(), k.ntru.unwrap_or_else(|| pair(&parse("{\"g\":99,\"n\":1}")).1))), &mut s, &mut b)?)),
        k => panic!("harness: kind {}", k),
    }
    r.rest = b.size();
    r.s = Some(s);
    Ok(r)
}
struct Sent { buf: Vec<u8>, s: Spongos, advertised: usize }
/// run the wrap functions; slink: the author's sponge of the linked message
fn wrap(m: &J, craft: bool, slink: Option<Spongos>) -> Sent {
    let kind = m.get("kind").s();
    let sk = |a: &str, b: &str| sk_at(key_id(m.get(a)), m.get(b).u());
    let (hdr, has_hdr) = (m.get("hdr"), m.get("hdr").has("ver"));
    let mut slink = slink.unwrap_or_else(Spongos::init);
    let link = if m.has("link") { Some(m.get("link").get("id").s()) } else { None };
    let link_t = link.map(|l| tr(&named(l, 81)));
    let ntru_pk = match m.get("ntru").get("t") { J::Str(t) if t == "ntrupk" => Some(pair(m.get("ntru").get("pair")).1), _ => None };
    let mut advertised = 0;
    let typ = if has_hdr { trytes(&term(hdr.get("type"))) } else { trytes(&[]) };
    if has_hdr { advertised += core::msg::header::sizeof(typ.size() / 3) }
    let psks: Vec<(Trits, Trits)> = if m.has("psks") { m.get("psks").a().iter().map(|e| (tr(&named(e.get("id").s(), 81)), tr(&named(e.get("psk").s(), 243)))).collect() } else { vec![] };
    let pks: Vec<(Trits, ntru::PublicKey)> = if m.has("pairs") { m.get("pairs").a().iter().map(|p| { let k = pair(p).1; (tr(&pkid(p, &k)), k) }).collect() } else { vec![] };
    let pay = |f: &str| trytes(&term(m.get(f)));
    advertised += match kind {
        "header" => 0,
        "announce" => msg::announce::sizeof(&sk("mss", "kn0"), m.get("ntru").get("t").s() != "none"),
        "change_key" => msg::change_key::sizeof(&sk("signer", "kn"), &sk("signer2", "kn2")),
        "signed" => msg::signed_packet::sizeof(pay("pub").size() / 3, pay("masked").size() / 3, &sk("signer", "kn")),
        "tagged" => msg::tagged_packet::sizeof(pay("pub").size() / 3, pay("masked").size() / 3),
        "keyload" | "skeyload" => msg::keyload::sizeof(&mut psks.iter().map(|(a, b)| (a, b)), &mut pks.iter().map(|(a, b)| (a, b)))
            + if kind == "skeyload" { pb3::mssig::sizeof_mssig(&sk("signer", "kn")) } else { 0 },
        "subscribe" => msg::subscribe::sizeof(),
        "unsubscribe" => msg::unsubscribe::sizeof(),
        k => panic!("harness: kind {}", k),
    };
    const SPARE: usize = 10000;
    let mut t = Trits::zero(advertised + SPARE);
    let mut s = Spongos::init();
    let written;
    {
        let mut b = t.slice_mut();
        if has_hdr { core::msg::header::wrap(&typ, &appinst(hdr.get("app").s()), &msgid(hdr.get("id").s()), &mut s, &mut b) }
        let l = link_t.as_ref();
        match kind {
            "header" => {}
            "announce" if !craft => msg::announce::wrap(&sk("signer", "kn"), &ntru_pk, &mut s, &mut b),
            "announce" => {
                mss_pk(key_id(m.get("mss"))).wrap_absorb(&mut s, &mut b);
                match m.get("ntru").get("t").s() {
                    "none" => pb3::oneof(0).wrap_absorb(&mut s, &mut b),
                    "badtag" => pb3::oneof(m.get("ntru").get("n").n() as _).wrap_absorb(&mut s, &mut b),
                    _ => { pb3::oneof(1).wrap_absorb(&mut s, &mut b); tr(&term(m.get("ntru"))).wrap_absorb(&mut s, &mut b) }
                }
                pb3::mssig::squeeze_wrap_mssig(&sk("signer", "kn"), &mut s, &mut b)
            }
            "change_key" if !craft => msg::change_key::wrap(l.unwrap().slice(), &mut slink, &sk("signer", "kn"), &sk("signer2", "kn2"), &mut s, &mut b),
            "change_key" => {
                pb3::join::wrap_join(l.unwrap().slice(), &mut slink, &mut s, &mut b);
                mss_pk(key_id(m.get("mss"))).wrap_absorb(&mut s, &mut b);
                let hash = pb3::mssig::squeeze_mss_hash(&mut s);
                pb3::mssig::wrap_mssig(hash.slice(), &sk("signer", "kn"), &mut s, &mut b);
                pb3::mssig::wrap_mssig(hash.slice(), &sk("signer2", "kn2"), &mut s, &mut b)
            }
            "signed" => msg::signed_packet::wrap(&msgid(link.unwrap()), &mut slink, &pay("pub"), &pay("masked"), &sk("signer", "kn"), &mut s, &mut b),
            "tagged" => msg::tagged_packet::wrap(&msgid(link.unwrap()), &mut slink, &pay("pub"), &pay("masked"), &mut s, &mut b),
            "keyload" | "skeyload" => {
                msg::keyload::wrap(l.unwrap().slice(), &mut slink, &tr(&term(m.get("nonce"))), &mut psks.iter().map(|(a, b)| (a, b)), &mut pks.iter().map(|(a, b)| (a, b)),
                    &party_prng(m.get("g").u()), &tr(&term(m.get("key"))), &mut s, &mut b);
                if kind == "skeyload" { pb3::mssig::squeeze_wrap_mssig(&sk("signer", "kn"), &mut s, &mut b) }
            }
            "subscribe" => msg::subscribe::wrap(l.unwrap().slice(), &mut slink, &party_prng(m.get("g").u()), tr(&term(m.get("nonce"))).slice(), &pair(m.get("sub").get("pair")).1, &pair(m.get("owner")).1, &mut s, &mut b),
            "unsubscribe" => msg::unsubscribe::wrap(l.unwrap().slice(), &mut slink, &mut s, &mut b),
            _ => unreachable!(),
        }
        written = advertised + SPARE - b.size();
    }
    let mut buf = tvt(&t);
    buf.truncate(written);
    Sent { buf, s, advertised }
}
// ---- reference encoding: the commands run on the reference sponge
pub struct RefOut { pub buf: Vec<u8>, pub s: RefSp, pub hash: Vec<u8> }
pub fn encode(cs: &[J], s: RefSp, refs: &HashMap<usize, RefSp>, lst: usize) -> Option<RefOut> {
    let mut o = RefOut { buf: vec![], s, hash: vec![] };
    for c in cs {
        match c.get("c").s() {
            "absorb" => { let x = term(c.get("x")); o.s.absorb(&x); o.buf.extend(x) }
            "external" => { let x = term(c.get("x")); o.s.absorb(&x) }
            "mask" => { let x = term(c.get("x")); let y = o.s.encr(&x); o.buf.extend(y) }
            "join" => { o.buf.extend(named(c.get("id").s(), 81)); let lst = if c.has("to") { c.get("to").u() } else { lst }; let mut l = if lst == 0 { RefSp::new() } else { refs.get(&lst)?.clone() }; o.s.join(&mut l) }
            "joinst" => { let mut l = refs.get(&c.get("to").u())?.clone(); o.s.join(&mut l) }
            "squeeze" => { o.s.squeeze(c.get("n").u()); }
            "commit" => o.s.commit(),
            "mac" => { o.s.commit(); let y = o.s.squeeze(243); o.buf.extend(y) }
            "hash" => { o.s.commit(); o.hash = o.s.squeeze(234) }
            "sig" => {
                let k = key_id(c.get("key"));
                static T: Cache<KeyId, Vec<Vec<Vec<u8>>>> = Mutex::new(None);
                let (pk, no) = (prng_key(k.0), nonce(k.1));
                let e = cached(&T, k);
                let tree = e.get_or_init(|| rf::mss_tree((0..1usize << k.2).map(|i| rf::wots_pk(&rf::mss_leaf_sk(&pk, &no, i))).collect()));
                o.buf.extend(rf::mss_sig(&pk, &no, tree, c.get("kn").u(), &o.hash))
            }
            "kem" => {
                let (x, pk, no) = (term(c.get("x")), tv(pair(c.get("pair")).1.trits()), term(c.get("n")));
                let r = rf::prng(&prng_trits(c.get("g").u()), &[&pk, &x, &no], rf::N);
                let y = rf::kem_encr(&mut o.s, &rf::pfrom(&pk).expect("harness: public key"), &r, &x);
                o.buf.extend(y)
            }
            "fork" => { let f = encode(c.get("sub").a(), o.s.clone(), refs, lst)?; o.buf.extend(f.buf) }
            c => panic!("harness: command {}", c),
        }
    }
    Some(o)
}
/// commands of a forger, run one by one on real sponges; other: the sponge the forger has for a message
fn forge(cs: &[J], s: &mut Spongos, b: &mut Vec<u8>, other: &dyn Fn(usize) -> Option<Spongos>) -> Option<()> {
    let mut hash: Option<Trits> = None;
    for c in cs {
        match c.get("c").s() {
            "absorb" => { let x = term(c.get("x")); s.absorb(tr(&x).slice()); b.extend(x) }
            "external" => s.absorb(tr(&term(c.get("x"))).slice()),
            "write" => b.extend(term(c.get("x"))),
            "mask" => { let x = tr(&term(c.get("x"))); b.extend(tvt(&s.encr_trits(&x))) }
            j @ "join" | j @ "joinst" => {
                if j == "join" { b.extend(named(c.get("id").s(), 81)) }
                let mut l = if c.get("ref").u() == 0 { Spongos::init() } else { other(c.get("ref").u())? };
                s.join(&mut l)
            }
            "commit" => s.commit(),
            "squeeze" => { s.squeeze_trits(c.get("n").u()); }
            "mac" => { s.commit(); b.extend(tvt(&s.squeeze_trits(243))) }
            "hash" => hash = Some(pb3::mssig::squeeze_mss_hash(s)),
            "sig" => {
                let mut t = Trits::zero(100000);
                let n = { let mut o = t.slice_mut(); pb3::mssig::wrap_mssig(hash.as_ref()?.slice(), &sk_at(key_id(c.get("key")), c.get("kn").u()), s, &mut o); 100000 - o.size() };
                b.extend(&tvt(&t)[..n])
            }
            "kem" => {
                let mut t = Trits::zero(ntru::EKEY_SIZE);
                pb3::ntrukem::wrap_ntrukem(tr(&term(c.get("x"))).slice(), &pair(c.get("pair")).1, &party_prng(c.get("g").u()), tr(&term(c.get("n"))).slice(), s, &mut t.slice_mut());
                b.extend(tvt(&t))
            }
            "fork" => forge(c.get("sub").a(), &mut s.clone(), b, other)?,
            c => panic!("harness: forged command {}", c),
        }
    }
    Some(())
}
type Whole = fn(&[u8]) -> Vec<u8>;
const WHOLE: [(&str, Whole); 9] = [
    ("all zeros", |x| vec![0; x.len()]), ("all ones", |x| vec![1; x.len()]), ("all twos", |x| vec![2; x.len()]),
    ("negated", |x| x.iter().map(|t| (3 - t) % 3).collect()), ("backwards", |x| x.iter().rev().copied().collect()),
    ("rotated by a trit", |x| { let mut y = x.to_vec(); y.rotate_left(1); y }), ("rotated by a tryte", |x| { let mut y = x.to_vec(); y.rotate_left(3); y }),
    ("first half zeros", |x| { let mut y = x.to_vec(); let n = y.len() / 2; y[..n].fill(0); y }), ("second half zeros", |x| { let mut y = x.to_vec(); let n = y.len() / 2; y[n..].fill(0); y }),
];
enum End { Fail(String), Quit }
impl From<String> for End { fn from(s: String) -> End { End::Fail(s) } }
type E = Result<(), End>;
fn types_ok() -> R {
    for (kind, t) in [("MAM9CHANNEL9ANNOUNCE", msg::announce::TYPE), ("MAM9CHANNEL9CHANGEKEY", msg::change_key::TYPE), ("MAM9KEYLOAD", msg::keyload::TYPE), ("MAM9SIGNEDPACKET", msg::signed_packet::TYPE),
        ("MAM9TAGGEDPACKET", msg::tagged_packet::TYPE), ("MAM9CHANNEL9SUBSCRIBE", msg::subscribe::TYPE), ("MAM9CHANNEL9UNSUBSCRIBE", msg::unsubscribe::TYPE)] { eq("message type", t, kind)? }
    Ok(())
}
impl World {
    fn p(&self, ps: &[&str]) -> bool { ps.contains(&self.prop.as_str()) }
    /// does the property speak of messages of this kind, as published and honestly read?
    fn scope(&self, kind: &str) -> bool {
        match self.prop.as_str() {
            "C01" | "C25" | "C26" => true,
            "C04" => kind == "keyload" || kind == "skeyload",
            "C05" => kind == "announce" || kind == "change_key",
            "C23" => kind == "header",
            "C24" => kind == "subscribe" || kind == "unsubscribe",
            _ => false,
        }
    }
    fn publish(&mut self, r: &J, what: &str) -> E {
        let mut m = r.get("m").clone();
        if let J::Obj(o) = &mut m { o.insert("kn0".into(), J::Num(0)); }
        let kind = m.get("kind").s().to_string();
        let (p, craft, scope) = (r.get("by").u() - 1, r.get("craft").b(), self.scope(&kind));
        let (st, lst) = (r.get("st").u(), r.get("lst").u());
        let slink = if self.prop == "C25" && lst != 0 { match self.real.get(&lst) { Some(s) => Some(s.clone()), None => return Err(End::Quit) } }
            else if m.has("link") && m.get("link").get("ref").u() != 0 { match self.know[p].get(&m.get("link").get("ref").u()) { Some(k) => k.s.clone(), None => return Err(End::Quit) } }
            else { None };
        let sent = match guarded(|| wrap(&m, craft, slink)) {
            Ok(s) => s,
            Err(e) if e.starts_with("harness:") => panic!("{}", e),
            Err(e) => return if scope { Err(End::Fail(format!("{}: wrap panics: {}", what, e))) } else { Err(End::Quit) },
        };
        let widths = r.get("widths").us();
        if self.prop == "C01" && !craft { eq(&format!("{}: advertised and written size", what), sent.advertised, sent.buf.len())? }
        let mut segs = vec![]; let mut at = 0;
        for w in widths { segs.push((at, w)); at += w }
        if self.prop == "C25" {
            let o = if lst != 0 && !self.refs.contains_key(&lst) { None } else { encode(r.get("cmds").a(), RefSp::new(), &self.refs, lst) };
            if let Some(o) = o {
                for (n, &(a, w)) in segs.iter().enumerate() {
                    eqv(&format!("{}: field {} at {}", what, n + 1, a), &sent.buf[a.min(sent.buf.len())..(a + w).min(sent.buf.len())], &o.buf[a..a + w])?;
                }
                eq(&format!("{}: size", what), sent.buf.len(), o.buf.len())?;
                let mut f = o.s.clone(); f.absorb(&atom("fingerprint mark", 90)); f.commit();
                eqv(&format!("{}: sponge after it", what), &fingerprint(&sent.s), &f.squeeze(100))?;
                self.refs.insert(st, o.s);
                stat("messages_encoded_by_reference", 1);
            }
            self.real.insert(st, sent.s.clone());
        }
        if at != sent.buf.len() { segs.clear() }
        let fp = fingerprint(&sent.s);
        self.note_class(st, &fp, scope, what)?;
        let mss = if kind == "announce" || kind == "change_key" { Some(mss_pk(key_id(m.get("mss")))) } else { None };
        let ntru = if kind == "subscribe" { Some(pair(m.get("sub").get("pair")).1) } else { None };
        self.msgs.push(Msg { m, st, buf: sent.buf, segs, fp, forged: false });
        let i = self.msgs.len();
        self.know[p].insert(i, Known { s: Some(sent.s), mss, ntru });
        stat(&format!("published_{}", kind), 1);
        Ok(())
    }
    fn forged(&mut self, r: &J, what: &str) -> E {
        let (p, st) = (r.get("by").u() - 1, r.get("st").u());
        let (mut s, mut buf) = (Spongos::init(), vec![]);
        let know = &self.know[p];
        match guarded(|| forge(r.get("cmds").a(), &mut s, &mut buf, &|i| know.get(&i).and_then(|k| k.s.clone()))) { Ok(Some(())) => {} Ok(None) => return Err(End::Quit), Err(e) => { if e.starts_with("harness:") { panic!("{}", e) } return Err(End::Quit) } }
        let (mut segs, mut at) = (vec![], 0);
        for w in r.get("widths").us() { segs.push((at, w)); at += w }
        if at != buf.len() { return Err(End::Quit) }
        let fp = fingerprint(&s);
        self.note_class(st, &fp, false, what)?;
        let m = r.get("m").clone();
        stat(&format!("forged_{}", m.get("kind").s()), 1);
        self.msgs.push(Msg { m, st, buf, segs, fp, forged: true });
        Ok(())
    }
    /// sponges of one class are equal
    fn note_class(&mut self, st: usize, fp: &[u8], scope: bool, what: &str) -> E {
        if self.p(&["C25"]) { return Ok(()) }
        if let Some(x) = self.class.get(&st) { if scope && self.p(&["C01", "C04", "C26", "C24", "C05"]) { eqv(&format!("{}: sponge, seen before as number {}", what, st), fp, x)? } }
        else { self.class.insert(st, fp.to_vec()); }
        Ok(())
    }
    fn reader(&self, p: usize, i: usize, r: &J) -> Reader<'_> {
        let m = &self.msgs[i].m;
        let t = r.get("t");
        let (mut app, mut id) = (String::new(), String::new());
        if m.get("hdr").has("ver") {
            app = m.get("hdr").get("app").s().to_string(); id = m.get("hdr").get("id").s().to_string();
            match t.get("a").s() { "app" => app = format!("{}~{}~{}", app, t.get("at").u(), t.get("d").u()), "id" => id = format!("{}~{}~{}", id, t.get("at").u(), t.get("d").u()), _ => {} }
        }
        let trust = key_id(r.get("trust"));
        Reader {
            names: self.know[p].iter().map(|(j, k)| (named(self.msgs[j - 1].m.get("name").s(), 81), k)).collect(),
            hdr: if app.is_empty() { None } else { Some((appinst(&app), msgid(&id))) },
            trust: if trust.0 == 0 { None } else { Some(mss_pk(trust)) },
            psks: self.rings[p].iter().map(|(i, k)| (tr(&named(i, 81)), tr(&named(k, 243)))).collect(),
            sks: [1, 2].iter().map(|n| { let j = parse(&format!("{{\"g\":{},\"n\":{}}}", p + 1, n)); let (s, k) = pair(&j); (tr(&pkid(&j, &k)), s) }).collect(),
            sk: Some(pair(r.get("sk")).0),
        }
    }
    fn read(&mut self, r: &J, what: &str) -> E {
        let (p, i, t) = (r.get("p").u() - 1, r.get("i").u() - 1, r.get("t"));
        let (a, kind, expect) = (t.get("a").s(), r.get("kind").s(), r.get("expect").s());
        let mkind = self.msgs[i].m.get("kind").s().to_string();
        let mut buf = self.msgs[i].buf.clone();
        let seg = |w: &World, i: usize, n: usize| if w.msgs[i].segs.is_empty() { None } else { Some(w.msgs[i].segs[n - 1]) };
        match a {
            "alter" | "recalter" => { let (o, _) = match seg(self, i, t.get("seg").u()) { Some(x) => x, None => return Ok(()) }; let k = o + t.get("at").u(); buf[k] = (buf[k] + t.get("d").u() as u8) % 3 }
            "cut" => { let (o, _) = match seg(self, i, t.get("seg").u()) { Some(x) => x, None => return Ok(()) }; buf.truncate(o + t.get("at").u()) }
            "splice" => {
                let j = t.get("other").u() - 1;
                let ((o, w), (q, _)) = match (seg(self, i, t.get("seg").u()), seg(self, j, t.get("oseg").u())) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
                let src = self.msgs[j].buf[q..q + w].to_vec(); buf[o..o + w].copy_from_slice(&src)
            }
            "version" => buf[..3].copy_from_slice(&rf::bt(t.get("at").n(), 3)),
            _ => {}
        }
        // something follows the message, unless it was cut short
        let tail = if a.starts_with("cut") { 0 } else { [0, 5, 1000][(i + p + buf.iter().map(|t| *t as usize).sum::<usize>()) % 3] };
        buf.extend(atom("what follows", tail));
        if tail > 0 && self.msgs[i].forged && expect == "err" && self.scope(&mkind) {
            let res = { let x = self.reader(p, i, r); guarded(|| unwrap_any(kind, &x, &buf[..buf.len() - tail])) };
            if let Ok(Ok(_)) = res { return Err(End::Fail(format!("{}: accepted when nothing follows", what))) }
        }
        let honest = a == "none";
        let trick_scope = match a {
            "alter" | "splice" | "recalter" | "trust" | "recover" => self.prop == "C02" && mkind != "keyload" || self.prop == "C26" || self.prop == "C05" && self.scope(&mkind) || self.prop == "C24" && self.scope(&mkind) || self.prop == "C04" && a == "splice" && mkind == "keyload",
            "app" | "id" | "version" => self.p(&["C02", "C23", "C26"]) && (mkind != "keyload" || self.prop != "C02"),
            "sk" => self.p(&["C02", "C24", "C26"]),
            "cut" => self.p(&["C03", "C26"]),
            _ => false,
        } || self.prop == "C03";
        // in C02 an honest reading matters when it must fail: wrong sponge behind the link
        let scope = if honest { self.scope(&mkind) || self.prop == "C02" && expect == "err" && mkind != "keyload" || self.prop == "C23" } else { trick_scope };
        if !honest && !scope { return Ok(()) }
        if honest && !scope && !r.get("keep").b() { return Ok(()) }
        let res = { let x = self.reader(p, i, r); guarded(|| unwrap_any(kind, &x, &buf)) };
        let res = match res { Ok(x) => x, Err(e) => { if e.starts_with("harness:") { panic!("{}", e) } return if scope || self.prop == "C03" { Err(End::Fail(format!("{}: panics: {}", what, e))) } else { Err(End::Quit) } } };
        if !scope {
            // only keeps the world going
            match res { Ok(mut x) if expect == "ok" => { let k = Known { s: x.s.take(), mss: x.mss, ntru: x.ntru.flatten() }; self.know[p].insert(i + 1, k); return Ok(()) } _ => return Err(End::Quit) }
        }
        stat(&format!("read_{}_{}_{}", kind, a, expect), 1);
        if self.prop == "C03" && a != "cut" { return Ok(()) }
        match expect {
            "ok" => {
                let mut x = match res { Ok(x) => x, Err(e) => return if self.prop == "C02" || self.prop == "C23" && mkind != "header" { Err(End::Quit) } else { Err(End::Fail(format!("{}: refused: {:?}", what, e))) } };
                let fp = fingerprint(x.s.as_ref().unwrap());
                if self.p(&["C01", "C04", "C26"]) { eq(&format!("{}: trits left unread", what), x.rest, r.get("rest").u() + tail)? }
                let same = r.get("st").u();
                if self.prop == "C02" {
                    // altered where only other recipients look: then it is the author's sponge
                    let author = self.class.entry(same).or_insert(fp.clone()).clone();
                    if a != "recover" { eqv(&format!("{}: accepted with another sponge than the author's", what), &fp, &author)? }
                } else { self.note_class(same, &fp, true, what)?;
                    if self.p(&["C04", "C26", "C23"]) && same != self.msgs[i].st { ensure(fp != self.msgs[i].fp, &format!("{}: reaches the author's sponge", what))? }
                }
                let m = &self.msgs[i].m;
                if a == "recover" || kind == "recover" && r.get("plain").b() { ensure(x.mss == Some(mss_pk(key_id(m.get("signer")))), &format!("{}: recovered key is not the signer's", what))? }
                if r.get("plain").b() && !self.p(&["C02", "C04"]) {
                    if let Some(t) = &x.typ { eqv(&format!("{}: type", what), t, &term(m.get("hdr").get("type")))? }
                    if let Some(v) = &x.pubp { eqv(&format!("{}: public payload", what), v, &term(m.get("pub")))? }
                    if let Some(v) = &x.masked { eqv(&format!("{}: masked payload", what), v, &term(m.get("masked")))? }
                    match (kind, &x.mss, &x.ntru) {
                        ("announce", Some(k), Some(n)) => { ensure(*k == mss_pk(key_id(m.get("mss"))), &format!("{}: signing key", what))?; let want = if m.get("ntru").get("t").s() == "ntrupk" { Some(pair(m.get("ntru").get("pair")).1) } else { None }; ensure(*n == want, &format!("{}: NTRU key", what))? }
                        ("change_key", Some(k), _) => ensure(*k == mss_pk(key_id(m.get("mss"))), &format!("{}: signing key", what))?,
                        ("subscribe", _, Some(n)) => ensure(*n == Some(pair(m.get("sub").get("pair")).1), &format!("{}: subscriber's key", what))?,
                        ("unsubscribe", _, Some(n)) => {
                            let l = m.get("link").get("id").s();
                            if let Some(q) = self.msgs.iter().find(|q| q.m.get("name").s() == l) { if q.m.get("kind").s() == "subscribe" { ensure(*n == Some(pair(q.m.get("sub").get("pair")).1), &format!("{}: unsubscriber's key", what))? } }
                        }
                        _ => {}
                    }
                }
                if r.get("keep").b() { let k = Known { s: x.s.take(), mss: x.mss, ntru: if kind == "subscribe" { x.ntru.flatten() } else { None } }; self.know[p].insert(i + 1, k); }
            }
            "err" => ensure(res.is_err(), &format!("{}: accepted", what))?,
            "nokey" => match res { Ok(_) => return Err(End::Fail(format!("{}: opened without a key", what))), Err(e) => if honest { ensure(e == PErr::KeyNotFound, &format!("{}: error {:?} instead of KeyNotFound", what, e))? } },
            "notsigner" => if let Ok(x) = res { ensure(x.mss != Some(mss_pk(key_id(self.msgs[i].m.get("signer")))), &format!("{}: recovers the signer's key", what))? },
            _ => {}
        }
        Ok(())
    }
    /// masked pieces of one message have masks of their own
    fn pieces(&self, m: &Msg, fields: &[J], which: &str, what: &str) -> E {
        let mut seen: Vec<(String, Vec<u8>)> = vec![];
        for f in fields {
            let (k, from, to) = (f.get("seg").u() - 1, f.get("from").u(), f.get("to").u());
            if to - from < 81 { continue }
            let (o, _) = m.segs[k];
            let y: Vec<u8> = term(f.get(which))[from..to].iter().zip(&m.buf[o + from..o + to]).map(|(p, c)| (c + 3 - p) % 3).collect();
            let name = format!("field {} trits {}..{}", k + 1, from, to);
            for (n, x) in &seen {
                let (w, d) = (x.len().min(y.len()), x.iter().zip(&y).filter(|(s, t)| s != t).count());
                ensure(5 * d >= 2 * w, &format!("{}: {} is masked as {} of the same message", what, name, n))?;
            }
            seen.push((name, y));
        }
        Ok(())
    }
    /// every trit of masked content, in many messages alike but for the header: what is added to it varies
    fn maskmany(&mut self, r: &J, what: &str) -> E {
        let ms = &self.msgs[r.get("from").u() - 1..r.get("to").u()];
        if ms.iter().any(|m| m.segs.is_empty()) { return Ok(()) }
        // of independent masks no two are alike throughout
        let mut seen: HashMap<Vec<u8>, (usize, usize)> = HashMap::new();
        for f in r.get("fields").a() {
            let (k, from, to) = (f.get("seg").u() - 1, f.get("from").u(), f.get("to").u());
            let p = term(f.get("xa"));
            for i in from..to {
                let y: Vec<u8> = ms.iter().map(|m| (m.buf[m.segs[k].0 + i] + 3 - p[i]) % 3).collect();
                ensure(y.iter().any(|t| *t != y[0]), &format!("{}: trit {} of field {} is masked alike in {} messages{}", what, i, k + 1, y.len(), if y[0] == 0 { ", by nothing" } else { "" }))?;
                stat("masked_positions", 1);
                if y.len() < 30 || i - from >= 100 { continue }
                if let Some((k0, i0)) = seen.insert(y, (k, i)) { ensure(false, &format!("{}: trit {} of field {} is masked as trit {} of field {} in all messages", what, i, k + 1, i0, k0 + 1))? }
            }
        }
        Ok(())
    }
    /// what was added to the masked content of two messages: never nothing, never the same
    fn keystream(&mut self, r: &J, what: &str) -> E {
        let (a, b) = (&self.msgs[r.get("a").u() - 1], &self.msgs[r.get("b").u() - 1]);
        if a.segs.is_empty() || b.segs.is_empty() { return Ok(()) }
        self.pieces(a, r.get("fields").a(), "xa", what)?;
        self.pieces(b, r.get("fields").a(), "xb", what)?;
        for f in r.get("fields").a() {
            let (k, from, to) = (f.get("seg").u() - 1, f.get("from").u(), f.get("to").u());
            let n = to - from;
            if n < 27 { continue }
            let ks = |m: &Msg, x: &J| -> Vec<u8> { let (o, _) = m.segs[k]; term(x)[from..to].iter().zip(&m.buf[o + from..o + to]).map(|(p, c)| (c + 3 - p) % 3).collect() };
            let (x, y) = (ks(a, f.get("xa")), ks(b, f.get("xb")));
            stat("masked_pieces", 1); stat("masked_trits", n as u64);
            // of independent trits two thirds differ
            let few = |d: usize| if n < 81 { d == 0 } else { 5 * d < 2 * n };
            let (zx, zy, d) = (x.iter().filter(|t| **t != 0).count(), y.iter().filter(|t| **t != 0).count(), x.iter().zip(&y).filter(|(s, t)| s != t).count());
            ensure(!few(zx) && !few(zy), &format!("{}: field {} trits {}..{} are sent in the clear", what, k + 1, from, to))?;
            ensure(!few(d), &format!("{}: field {} trits {}..{} are masked as in the other message ({} of {} differ)", what, k + 1, from, to, d, n))?;
        }
        Ok(())
    }
    fn sweep(&mut self, r: &J, what: &str) -> E {
        let (p, i, t, per) = (r.get("p").u() - 1, r.get("i").u() - 1, r.get("t"), r.get("per").a());
        let (a, kind, every) = (t.get("a").s(), r.get("kind").s(), r.get("every").u());
        let m = &self.msgs[i];
        if m.segs.is_empty() { return Ok(()) }
        let mut rng = Rng::new(what);
        // (description, bytes, verdict, header offset)
        let mut jobs: Vec<(String, Vec<u8>, String, Option<(usize, usize)>)> = vec![];
        let mut positions = |w: usize, hot: usize, end: usize| -> Vec<usize> {
            if w <= 3 * every || w <= hot + end { (0..w).collect() } else {
                // the first ones, the last ones, and one in each of `every` parts
                let mut v: Vec<usize> = (0..hot).chain(w - end..w).collect();
                for i in 0..every { let (a, b) = (w * i / every, w * (i + 1) / every); v.push(a + rng.below(b - a)) }
                v
            }
        };
        match a {
            "alter" | "recalter" => for (n, &(o, w)) in m.segs.iter().enumerate() {
                for q in positions(w, 18, 3) { for d in 1..3 {
                    if w > 3 * every && (q + d) % 2 == 0 && q >= 18 { continue }
                    let mut b = m.buf.clone(); b[o + q] = (b[o + q] + d as u8) % 3;
                    jobs.push((format!("field {} trit {} +{}", n + 1, q, d), b, per[n].s().into(), None));
                } }
                // the field as a whole
                if w >= 81 { for (name, f) in WHOLE {
                    let mut b = m.buf.clone(); let g = f(&m.buf[o..o + w]); b[o..o + w].copy_from_slice(&g);
                    if b != m.buf { jobs.push((format!("field {} {}", n + 1, name), b, per[n].s().into(), None)) }
                } }
            },
            "cut" | "cutrec" => for (n, &(o, w)) in m.segs.iter().enumerate() { for q in positions(w, 12, 12) { jobs.push((format!("cut in field {} at {}", n + 1, q), m.buf[..o + q].to_vec(), per[n].s().into(), None)) } },
            "app" | "id" => for q in 0..if a == "app" { 243 } else { 81 } { for d in 1..3 { jobs.push((format!("{} trit {} +{}", a, q, d), m.buf.clone(), per[0].s().into(), Some((q, d)))) } },
            // the key trusted, or the one the linked message established
            "near" => for q in 0..243 { for d in 1..3 { if w_near(q, d) { jobs.push((format!("trusted key with trit {} +{}", q, d), m.buf.clone(), per[0].s().into(), Some((q, d)))) } } },
            x => panic!("harness: sweep {}", x),
        }
        stat(&format!("swept_{}_{}", kind, a), jobs.len() as u64);
        for (n, (desc, mut b, verdict, off)) in jobs.into_iter().enumerate() {
            // now and then more follows
            if !a.starts_with("cut") { b.extend(atom("what follows", [0, 0, 5, 1000][n % 4])) }
            let near: Vec<Known> = if a != "near" { vec![] } else {
                let (q, d) = off.unwrap();
                self.know[p].values().map(|k| Known { mss: k.mss.as_ref().map(|k| near_pk(k, q, d)), ..k.clone() }).collect()
            };
            let mut x = self.reader(p, i, r);
            if a == "near" {
                let (q, d) = off.unwrap();
                x.trust = x.trust.as_ref().map(|k| near_pk(k, q, d));
                x.names = self.know[p].keys().zip(&near).map(|(j, k)| (named(self.msgs[j - 1].m.get("name").s(), 81), k)).collect();
            } else if let Some((q, d)) = off {
                let h = m.m.get("hdr");
                let (mut ap, mut id) = (h.get("app").s().to_string(), h.get("id").s().to_string());
                if a == "app" { ap = format!("{}~{}~{}", ap, q, d) } else { id = format!("{}~{}~{}", id, q, d) }
                x.hdr = Some((appinst(&ap), msgid(&id)));
            }
            let what = format!("{}, {}", what, desc);
            let res = match guarded(|| unwrap_any(kind, &x, &b)) { Ok(x) => x, Err(e) => { if e.starts_with("harness:") { panic!("{}", e) } return Err(End::Fail(format!("{}: panics: {}", what, e))) } };
            match (verdict.as_str(), res) {
                ("err", Ok(_)) => return Err(End::Fail(format!("{}: accepted", what))),
                ("notsigner", Ok(y)) => ensure(y.mss != Some(mss_pk(key_id(m.m.get("signer")))), &format!("{}: recovers the signer's key", what))?,
                ("differs", Ok(y)) => ensure(fingerprint(y.s.as_ref().unwrap()) != m.fp, &format!("{}: same sponge as the author's", what))?,
                ("same", Ok(y)) => ensure(fingerprint(y.s.as_ref().unwrap()) == m.fp, &format!("{}: accepted with another sponge than the author's", what))?,
                ("same", Err(e)) if self.p(&["C04"]) => return Err(End::Fail(format!("{}: refused: {:?}", what, e))),
                _ => {}
            }
        }
        Ok(())
    }
}
pub fn replay(c: &J, prop: &str) -> R {
    if prop == "C25" { types_ok()? }
    CONSTANT.with(|c| c.borrow_mut().clear()); ALIASES.with(|a| a.set(false));
    let mut w = World { prop: prop.into(), ..Default::default() };
    for (n, r) in c.get("hist").a().iter().enumerate() {
        let op = r.get("op").s();
        let what = match op {
            "forge" => format!("event {}: party {} forges {}", n + 1, r.get("by").u(), r.get("m").get("kind").s()),
            "publish" => format!("event {}: party {} publishes {}{}", n + 1, r.get("by").u(), if r.get("craft").b() { "crafted " } else { "" }, r.get("m").get("kind").s()),
            "read" => format!("event {}: party {} reads {} (message {}) {}", n + 1, r.get("p").u(), r.get("kind").s(), r.get("i").u(), if r.get("t").get("a").s() == "none" { String::new() } else { r.get("t").show() }),
            "sweep" => format!("event {}: party {} reads {} (message {})", n + 1, r.get("p").u(), r.get("kind").s(), r.get("i").u()),
            _ => format!("event {}", n + 1),
        };
        let e = match op {
            "aliases" => { ALIASES.with(|a| a.set(true)); Ok(()) }
            "interpret" => { CONSTANT.with(|c| c.borrow_mut().extend(r.get("names").a().iter().map(|x| (x.s().to_string(), r.get("d").u() as u8)))); Ok(()) }
            "setup" => { w.rings = r.get("rings").a().iter().map(|s| s.a().iter().map(|x| (x.a()[0].s().into(), x.a()[1].s().into())).collect()).collect(); w.know = vec![HashMap::new(); w.rings.len()]; Ok(()) }
            "publish" => w.publish(r, &what),
            "forge" => w.forged(r, &what),
            "read" => w.read(r, &what),
            "sweep" => w.sweep(r, &what),
            "maskmany" => w.maskmany(r, &what),
            "keystream" => w.keystream(r, &what),
            x => panic!("harness: op {}", x),
        };
        match e { Ok(()) => {} Err(End::Quit) => { stat("cases_abandoned", 1); return Ok(()) } Err(End::Fail(s)) => return Err(s) }
    }
    Ok(())
}
