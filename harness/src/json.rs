//! Minimal JSON reader and writer (no external crates).
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(i64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }
pub struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1 } }
    fn val(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1; let mut m = BTreeMap::new(); self.ws();
                if self.s[self.i] == b'}' { self.i += 1; return J::Obj(m) }
                loop {
                    self.ws(); let k = self.string(); self.ws(); assert_eq!(self.s[self.i], b':'); self.i += 1;
                    let v = self.val(); m.insert(k, v); self.ws();
                    let c = self.s[self.i]; self.i += 1;
                    if c == b'}' { return J::Obj(m) } assert_eq!(c, b',');
                }
            }
            b'[' => {
                self.i += 1; let mut a = Vec::new(); self.ws();
                if self.s[self.i] == b']' { self.i += 1; return J::Arr(a) }
                loop {
                    let v = self.val(); a.push(v); self.ws();
                    let c = self.s[self.i]; self.i += 1;
                    if c == b']' { return J::Arr(a) } assert_eq!(c, b',');
                }
            }
            b'"' => J::Str(self.string()),
            b't' => { self.i += 4; J::Bool(true) }
            b'f' => { self.i += 5; J::Bool(false) }
            b'n' => { self.i += 4; J::Null }
            _ => {
                let b = self.i; if self.s[self.i] == b'-' { self.i += 1 }
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1 }
                J::Num(std::str::from_utf8(&self.s[b..self.i]).unwrap().parse().expect("number"))
            }
        }
    }
    fn string(&mut self) -> String {
        assert_eq!(self.s[self.i], b'"'); self.i += 1;
        let mut out = Vec::new();
        loop {
            let c = self.s[self.i]; self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).unwrap(),
                b'\\' => {
                    let e = self.s[self.i]; self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'), b't' => out.push(b'\t'), b'r' => out.push(b'\r'),
                        b'u' => {
                            let h = u32::from_str_radix(std::str::from_utf8(&self.s[self.i..self.i + 4]).unwrap(), 16).unwrap();
                            self.i += 4; let ch = char::from_u32(h).unwrap_or('?');
                            let mut b = [0; 4]; out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        x => out.push(x),
                    }
                }
                x => out.push(x),
            }
        }
    }
}
pub fn parse(s: &str) -> J { let mut p = P { s: s.as_bytes(), i: 0 }; p.val() }
impl J {
    pub fn get(&self, k: &str) -> &J { match self { J::Obj(m) => m.get(k).unwrap_or(&J::Null), _ => &J::Null } }
    pub fn has(&self, k: &str) -> bool { match self { J::Obj(m) => m.contains_key(k), _ => false } }
    pub fn s(&self) -> &str { match self { J::Str(s) => s, x => panic!("harness: not a string: {:?}", x) } }
    pub fn n(&self) -> i64 { match self { J::Num(n) => *n, x => panic!("harness: not a number: {:?}", x) } }
    pub fn u(&self) -> usize { self.n() as usize }
    pub fn b(&self) -> bool { match self { J::Bool(b) => *b, x => panic!("harness: not a bool: {:?}", x) } }
    pub fn a(&self) -> &[J] { match self { J::Arr(a) => a, x => panic!("harness: not an array: {:?}", x) } }
    pub fn us(&self) -> Vec<usize> { self.a().iter().map(|x| x.u()).collect() }
    pub fn ns(&self) -> Vec<i64> { self.a().iter().map(|x| x.n()).collect() }
    pub fn trits(&self) -> Vec<u8> { self.a().iter().map(|x| x.n() as u8).collect() }
    pub fn show(&self) -> String {
        match self {
            J::Null => "null".into(), J::Bool(b) => b.to_string(), J::Num(n) => n.to_string(),
            J::Str(s) => q(s),
            J::Arr(a) => format!("[{}]", a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            J::Obj(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", q(k), v.show())).collect::<Vec<_>>().join(",")),
        }
    }
}
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}
