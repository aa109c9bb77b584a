//! Replay of spec/MerkleMC.tla (walks) and spec/MerkleGen.tla (programs); recording for spec/MerkleTrace.tla.
//! Hash values are free terms: two are equal only if built in the same way.
use crate::common::*;
use crate::json::*;
use iota_mam::mss::mt::{APath, TraversableMerkleTree};
use iota_mam::mss::{mtcomplete, mttraversal};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T { N(usize, usize, usize), Bad(Rc<(T, T)>) }   // leaf function, level, index
fn merge(l: &T, r: &T) -> T {
    match (l, r) {
        (T::N(f, d, i), T::N(g, e, j)) if f == g && d == e && i % 2 == 0 && *j == i + 1 => T::N(*f, d + 1, i / 2),
        _ => T::Bad(Rc::new((l.clone(), r.clone()))),
    }
}
/// leaf and merge functions that count
struct Calls { leafs: RefCell<Vec<usize>>, merges: Cell<usize> }
impl Calls {
    fn new() -> Self { Calls { leafs: RefCell::new(vec![]), merges: Cell::new(0) } }
    fn reset(&self) { self.leafs.borrow_mut().clear(); self.merges.set(0) }
}
macro_rules! fns { ($c:expr, $f:expr) => { (|i: usize| { $c.leafs.borrow_mut().push(i); T::N($f, 0, i) }, |l: &T, r: &T| { $c.merges.set($c.merges.get() + 1); merge(l, r) }) } }

/// either kind of tree behind one interface
#[derive(Clone)]
enum Tree { C(mtcomplete::MT<T>), V(mttraversal::MT<T>) }
macro_rules! on { ($s:expr, $t:ident => $e:expr) => { match $s { Tree::C($t) => $e, Tree::V($t) => $e } } }
impl Tree {
    fn gen(kind: &str, h: usize, f: usize, c: &Calls) -> Tree {
        let (g, m) = fns!(c, f);
        if kind == "complete" { Tree::C(TraversableMerkleTree::gen(&g, &m, h)) } else { Tree::V(TraversableMerkleTree::gen(&g, &m, h)) }
    }
    fn next(&mut self, f: usize, c: &Calls) -> bool { let (g, m) = fns!(c, f); on!(self, t => t.next(&g, &m)) }
    fn root(&self) -> T { on!(self, t => t.root().clone()) }
    fn height(&self) -> usize { on!(self, t => t.height()) }
    fn skn(&self) -> usize { on!(self, t => t.skn()) }
    fn apath(&self) -> APath<T> { on!(self, t => t.apath()) }
    fn store(&self) -> (usize, usize, Vec<T>) { on!(self, t => t.store()) }
    fn load(kind: &str, s: (usize, usize, Vec<T>)) -> Option<Tree> {
        if kind == "complete" { mtcomplete::MT::load(s.0, s.1, s.2).map(Tree::C) } else { mttraversal::MT::load(s.0, s.1, s.2).map(Tree::V) }
    }
    fn same(&self, o: &Tree) -> Option<bool> { match (self, o) { (Tree::C(a), Tree::C(b)) => Some(a == b), (Tree::V(a), Tree::V(b)) => Some(a == b), _ => None } }
}
/// the nodes of a path, seen through fold
fn nodes(p: &APath<T>, start: &T) -> Vec<T> {
    let out = RefCell::new(vec![]);
    let cur = RefCell::new(start.clone());
    p.fold(&|l: &T, r: &T| { let m = merge(l, r); out.borrow_mut().push(if *l == *cur.borrow() { r.clone() } else { l.clone() }); *cur.borrow_mut() = m.clone(); m }, start);
    out.into_inner()
}
fn observe(t: &Tree, k: usize, left: bool, path: &[J], h: usize, f: usize, what: &str) -> R {
    eq(&format!("{}: root", what), t.root(), T::N(f, h, 0))?;
    eq(&format!("{}: height", what), t.height(), h)?;
    eq(&format!("{}: leaf number", what), t.skn(), k)?;
    eq(&format!("{}: leaves and nodes of such a tree", what), (iota_mam::mss::mt::max_skn(h), iota_mam::mss::mt::tree_size(h)), (1 << h, 2 * (1 << h) - 1))?;
    if !left { return Ok(()) }
    let p = t.apath();
    eq(&format!("{}: leaf number of the path", what), p.skn(), k)?;
    let leaf = T::N(f, 0, k);
    let got = nodes(&p, &leaf);
    let want: Vec<T> = path.iter().map(|n| { let n = n.us(); T::N(f, n[0], n[1]) }).collect();
    eq(&format!("{}: authentication path", what), got, want)?;
    eq(&format!("{}: path folded with its leaf", what), p.fold(&merge, &leaf), t.root())?;
    let mut m = leaf.clone();
    ensure(p.fold_mut(&merge, &mut m), &format!("{}: fold_mut reports a path too short", what))?;
    eq(&format!("{}: path folded in place", what), m, t.root())?;
    let n = 1usize << h;
    for j in (0..n).step_by(if n <= 64 { 1 } else { 1 + n / 33 }).chain([k ^ 1, (k + 1) % n, (k + n - 1) % n, n - 1 - k]) {
        if j < n && j != k { ensure(p.fold(&merge, &T::N(f, 0, j)) != t.root(), &format!("{}: path also folds with leaf {} to the root", what, j))? }
    }
    ensure(p.fold(&merge, &T::N(f + 7, 0, k)) != t.root(), &format!("{}: path folds with a foreign leaf to the root", what))
}

fn walk(c: &J, prop: &str) -> R {
    let h = c.get("h").u();
    let w = c.get("walk").a();
    let (sb, stb) = (c.get("stepbound").u(), c.get("storebound").u());
    for kind in ["complete", "traversal"] {
        let calls = Calls::new();
        let mut t = Tree::gen(kind, h, 1, &calls);
        let what = |n: usize| format!("{} tree of height {} after {} advances", kind, h, n);
        if prop == "C10" {
            let mut l = calls.leafs.borrow().clone(); l.sort();
            eq(&format!("leaves computed generating a {} tree of height {}", kind, h), l, (0..1usize << h).collect())?;
        }
        for n in 0..w.len() {
            if n > 0 {
                calls.reset();
                let r = t.next(1, &calls);
                if prop == "C08" { eq(&format!("{}: result of advancing", what(n)), r, w[n].get("left").b())? }
                if prop == "C10" {
                    let l = calls.leafs.borrow().clone();
                    let all = l.len() + calls.merges.get();
                    if kind == "complete" { eq(&format!("{}: calls", what(n)), all, 0)? }
                    ensure(all <= sb, &format!("{}: the advance made {} calls, promised at most {}", what(n), all, sb))?;
                    if let Some(x) = l.iter().find(|x| **x >= 1 << h) { return Err(format!("{}: leaf {} asked for", what(n), x)) }
                }
                stat("advances", 1);
            }
            if prop == "C08" { observe(&t, w[n].get("k").u(), w[n].get("left").b(), w[n].get("path").a(), h, 1, &what(n))? }
            if prop == "C10" && kind == "traversal" {
                let s = t.store().2.len();
                ensure(s <= stb, &format!("{}: {} nodes stored, promised at most {}", what(n), s, stb))?;
            }
        }
    }
    Ok(())
}

/// tall trees (spec/MerkleFar.tla)
fn far(c: &J, prop: &str) -> R {
    let h = c.get("h").u();
    let (sb, stb) = (c.get("stepbound").u(), c.get("storebound").u());
    let at: std::collections::HashMap<usize, Vec<T>> = c.get("at").a().iter().map(|e| (e.get("k").u(), e.get("path").a().iter().map(|n| { let n = n.us(); T::N(1, n[0], n[1]) }).collect())).collect();
    let saves: std::collections::HashSet<usize> = c.get("saves").us().into_iter().collect();
    let n = 1usize << h;
    for kind in ["complete", "traversal"] {
        let calls = Calls::new();
        let mut t = Tree::gen(kind, h, 1, &calls);
        let mut twin: Option<(Tree, usize)> = None;
        for i in 0..n + 3 {
            let what = format!("{} tree of height {} after {} advances", kind, h, i);
            let k = i.min(n);
            if i > 0 {
                calls.reset();
                let r = t.next(1, &calls);
                if prop == "C08" && r != (k < n) { return Err(format!("{}: the advance returned {}", what, r)) }
                let l = calls.leafs.borrow();
                if prop == "C10" {
                    let all = l.len() + calls.merges.get();
                    if all > if kind == "complete" { 0 } else { sb } { return Err(format!("{}: the advance made {} calls", what, all)) }
                    if let Some(x) = l.iter().find(|x| **x >= n) { return Err(format!("{}: leaf {} asked for", what, x)) }
                }
                drop(l);
                stat("far_advances", 1);
            }
            match prop {
                "C08" => {
                    if t.skn() != k || t.height() != h || t.root() != T::N(1, h, 0) { return Err(format!("{}: number {}, height {}, root {:?}", what, t.skn(), t.height(), t.root())) }
                    if k == n { continue }
                    let p = t.apath();
                    let leaf = T::N(1, 0, k);
                    if p.skn() != k || p.fold(&merge, &leaf) != t.root() { return Err(format!("{}: the path is for number {} and folds to {:?}", what, p.skn(), p.fold(&merge, &leaf))) }
                    if let Some(w) = at.get(&k) { eq(&format!("{}: authentication path", what), &nodes(&p, &leaf), w)?; stat("far_paths", 1) }
                }
                "C10" => if kind == "traversal" { let s = t.store().2.len(); if s > stb { return Err(format!("{}: {} nodes stored", what, s)) } }
                _ => {
                    if let Some((x, left)) = twin.as_mut() {
                        let r = x.next(1, &calls);
                        if r != (k < n) || x.skn() != t.skn() || x.root() != t.root() { return Err(format!("{}: the restored tree is at {} returning {}", what, x.skn(), r)) }
                        if k < n && x.apath() != t.apath() { return Err(format!("{}: the restored tree's path differs", what)) }
                        *left -= 1;
                        if *left == 0 { ensure(x.same(&t) == Some(true), &format!("{}: the restored tree differs", what))?; twin = None }
                    }
                    if saves.contains(&k) && twin.is_none() {
                        let x = Tree::load(kind, t.store()).ok_or(format!("{}: not loaded from what store returned", what))?;
                        ensure(x.same(&t) == Some(true), &format!("{}: the restored tree differs at once", what))?;
                        twin = Some((x, if kind == "complete" { 3 } else { n / 4 + 3 }));
                        stat("far_saves", 1);
                    }
                }
            }
        }
    }
    Ok(())
}
fn sizes(len: usize) -> Vec<usize> { let mut v: Vec<usize> = [1, 2, 3, 50].iter().map(|d| len + d).collect(); v.extend([1, 2, 3].iter().filter(|d| **d <= len).map(|d| len - d)); v.push(0); v.retain(|x| *x != len); v }
fn resize(v: &[T], n: usize) -> Vec<T> { (0..n).map(|i| v.get(i).cloned().unwrap_or(T::N(9, 0, i))).collect() }
/// C09: everything is judged against an untouched companion of the same tree
fn prog(c: &J, prop: &str) -> R {
    let calls = Calls::new();
    let mut ts: Vec<(Tree, Tree, usize, String)> = vec![];   // tree, companion, leaf function, kind
    let mut st: Vec<((usize, usize, Vec<T>), Tree, usize, String)> = vec![];
    for (n, r) in c.get("hist").a().iter().enumerate() {
        let (op, o) = (r.get("op").s(), r.get("obs"));
        let (x, y) = (r.get("x").u().wrapping_sub(1), r.get("y").u().wrapping_sub(1));
        let (kind, h, k, f) = (o.get("kind").s(), o.get("h").u(), o.get("k").u(), o.get("f").u());
        let what = format!("op {} {} ({} tree of height {})", n + 1, op, kind, h);
        stat(&format!("op_{}", op), 1);
        let mut touched = None;
        match op {
            "gen" => { let t = Tree::gen(kind, h, f, &calls); ts.push((t.clone(), t, f, kind.to_string())); touched = Some(x) }
            "next" => {
                for i in 0..r.get("n").u() {
                    let e = &mut ts[x];
                    let a = e.0.next(f, &calls);
                    let b = e.1.next(f, &calls);
                    if prop == "C09" { eq(&format!("{}: advance {} of a restored tree and of the original", what, i + 1), a, b)? }
                }
                touched = Some(x)
            }
            "clone" => { let t = ts[x].clone(); ts.push(t); touched = Some(y) }
            "store" => { let e = &ts[x]; st.push((e.0.store(), e.1.clone(), f, kind.to_string())); touched = Some(x) }
            "load" => {
                let e = &st[y];
                if prop == "C09" {
                    let t = Tree::load(kind, e.0.clone()).ok_or(format!("{}: not loaded from what store returned at leaf {}", what, k))?;
                    ts.push((t, e.1.clone(), f, kind.to_string()));
                } else { ts.push((e.1.clone(), e.1.clone(), f, kind.to_string())) }
                touched = Some(x)
            }
            "loadlen" if prop == "C09" => {
                let e = &st[y];
                for m in sizes(e.0.2.len()) {
                    ensure(Tree::load(kind, (e.0.0, e.0.1, resize(&e.0.2, m))).is_none(), &format!("{}: loaded leaf {} with {} nodes instead of {}", what, k, m, e.0.2.len()))?;
                }
            }
            "loadbeyond" if prop == "C09" => {
                let e = &st[y];
                for s in [1usize, 2, 3, 1 << h, 1000000] {
                    for m in [e.0.2.len(), 0, 1, 2, h + 1, (2 << h) - 1] {
                        let k2 = (1 << h) + s;
                        ensure(Tree::load(kind, (h, k2, resize(&e.0.2, m))).is_none(), &format!("{}: loaded leaf number {} with {} nodes", what, k2, m))?;
                    }
                }
            }
            "equal" | "differ" if prop == "C09" => {
                if let Some(b) = ts[x].0.same(&ts[y].0) { eq(&format!("{}: trees {} and {} compare equal", what, x + 1, y + 1), b, op == "equal")? }
            }
            _ => {}
        }
        if let Some(x) = touched {
            let e = &ts[x];
            if prop == "C08" { observe(&e.0, k, o.get("left").b(), o.get("path").a(), h, f, &what)? }
            else {
                let (a, b) = (&e.0, &e.1);
                eq(&format!("{}: root, height and leaf number against the original", what), (a.root(), a.height(), a.skn()), (b.root(), b.height(), b.skn()))?;
                if a.skn() < 1 << h { ensure(a.apath() == b.apath(), &format!("{}: path differs from the original's", what))? }
                ensure(a.same(b) == Some(true), &format!("{}: restored tree differs from the original", what))?;
                ensure(a.store() == b.store(), &format!("{}: a later store differs from the original's", what))?;
            }
        }
    }
    Ok(())
}
pub fn replay(c: &J, prop: &str) -> R { match c.get("t").s() { "walk" => walk(c, prop), "prog" => prog(c, prop), "far" => far(c, prop), t => panic!("harness: merkle {}", t) } }

/// records calls and results of several interleaved trees
pub fn record(path: &str, trees: usize, maxh: usize, steps: usize) {
    let mut out = String::new();
    let mut rng = Rng::new("merkle-record");
    let mut ts: Vec<(Tree, String, usize)> = vec![];
    let log = RefCell::new(vec![]);
    let g = |i: usize| { log.borrow_mut().push(format!("{{\"e\":\"leaf\",\"i\":{}}}", i)); T::N(1, 0, i) };
    let m = |l: &T, r: &T| { log.borrow_mut().push("{\"e\":\"merge\"}".into()); merge(l, r) };
    for s in 0..steps {
        let x;
        let mut left = true;
        if ts.is_empty() || (ts.len() < trees && (s < trees || rng.below(40) == 0)) {
            let h = if ts.len() <= maxh { ts.len() } else { rng.below(maxh + 1) };
            let kind = if rng.below(4) == 0 { "complete" } else { "traversal" };
            x = ts.len();
            log.borrow_mut().push(format!("{{\"e\":\"gen\",\"t\":{},\"kind\":\"{}\",\"h\":{}}}", x + 1, kind, h));
            let t = if kind == "complete" { Tree::C(TraversableMerkleTree::gen(&g, &m, h)) } else { Tree::V(TraversableMerkleTree::gen(&g, &m, h)) };
            ts.push((t, kind.to_string(), h));
        } else {
            x = ts.len() - 1 - rng.below(ts.len()).min(rng.below(ts.len()));
            log.borrow_mut().push(format!("{{\"e\":\"next\",\"t\":{}}}", x + 1));
            left = on!(&mut ts[x].0, t => t.next(&g, &m));
        }
        let t = &ts[x].0;
        let k = t.skn();
        let p: Vec<String> = if k < 1 << ts[x].2 {
            nodes(&t.apath(), &T::N(1, 0, k)).iter().map(|n| match n { T::N(_, d, i) => format!("[{},{}]", d, i), _ => "[]".into() }).collect()
        } else { vec![] };
        let ret = format!("{{\"e\":\"ret\",\"k\":{},\"left\":{},\"path\":[{}],\"stored\":{}}}", k, left, p.join(","), t.store().2.len());
        log.borrow_mut().push(ret);
        for l in log.borrow_mut().drain(..) { out.push_str(&l); out.push('\n') }
    }
    std::fs::write(path, out).unwrap();
}
