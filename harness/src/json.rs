//! A reader for the scripts the specification prints: integers, strings, lists, objects.

use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
    O(HashMap<String, J>),
}

impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let j = value(b, &mut i);
        assert!(b[i..].iter().all(|c| c.is_ascii_whitespace()), "trailing input");
        j
    }
    pub fn get(&self, k: &str) -> &J {
        self.opt(k).unwrap_or_else(|| panic!("no field {} in {:?}", k, self))
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::O(m) => m.get(k),
            _ => panic!("not an object: {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::N(i) => *i,
            _ => panic!("not an integer: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("not a list: {:?}", self),
        }
    }
    /// field k, a natural number
    pub fn u(&self, k: &str) -> usize {
        self.get(k).int() as usize
    }
    /// field k, a natural number, or 0
    pub fn u0(&self, k: &str) -> usize {
        self.opt(k).map_or(0, |j| j.int() as usize)
    }
    pub fn us(&self, k: &str) -> Vec<usize> {
        self.get(k).arr().iter().map(|j| j.int() as usize).collect()
    }
    pub fn op(&self) -> &str {
        self.get("op").str()
    }
    /// an unbounded integer, `[sign, limbs...]`
    pub fn big(&self) -> i128 {
        let v = self.arr();
        let mut x: i128 = 0;
        for l in v[1..].iter().rev() {
            x = x * 10000 + l.int() as i128;
        }
        x * v[0].int() as i128
    }
    pub fn i64(&self) -> i64 {
        i64::try_from(self.big()).expect("an i64")
    }
    pub fn mono(&self) -> Vec<u8> {
        self.arr().iter().map(|j| j.int() as u8).collect()
    }
}

fn value(b: &[u8], i: &mut usize) -> J {
    match b[*i] {
        b'[' => {
            *i += 1;
            let mut v = vec![];
            while b[*i] != b']' {
                v.push(value(b, i));
                if b[*i] == b',' {
                    *i += 1;
                }
            }
            *i += 1;
            J::A(v)
        }
        b'{' => {
            *i += 1;
            let mut m = HashMap::new();
            while b[*i] != b'}' {
                let k = match value(b, i) {
                    J::S(s) => s,
                    x => panic!("not a key: {:?}", x),
                };
                assert!(b[*i] == b':');
                *i += 1;
                m.insert(k, value(b, i));
                if b[*i] == b',' {
                    *i += 1;
                }
            }
            *i += 1;
            J::O(m)
        }
        b'"' => {
            let s = *i + 1;
            *i = s;
            while b[*i] != b'"' {
                assert!(b[*i] != b'\\', "escape");
                *i += 1;
            }
            *i += 1;
            J::S(String::from_utf8(b[s..*i - 1].to_vec()).unwrap())
        }
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[s..*i]).unwrap().parse().expect("a number"))
        }
    }
}
