//! Minimal JSON value: writing by hand, reading through miniserde.
use miniserde::json::{Number, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn obj() -> J {
        J::O(vec![])
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        if let J::O(ref mut f) = self {
            f.retain(|x| x.0 != k);
            f.push((k.to_string(), v.into()));
        }
        self
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(f) => f.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k)
            .unwrap_or_else(|| panic!("HARNESS: no field {k} in {}", self.text()))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            J::B(b) => *b as i64,
            _ => panic!("HARNESS: not an int: {}", self.text()),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("HARNESS: not a string: {}", self.text()),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => panic!("HARNESS: not an array: {}", self.text()),
        }
    }
    pub fn ints(&self) -> Vec<usize> {
        self.arr().iter().map(|x| x.us()).collect()
    }
    pub fn op(&self) -> &str {
        self.at("op").str()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::I(i) => out.push_str(&i.to_string()),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                            let mut b = [0; 2];
                            for u in c.encode_utf16(&mut b) {
                                out.push_str(&format!("\\u{:04x}", u));
                            }
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(f) => {
                out.push('{');
                for (i, (k, x)) in f.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::S(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> J {
        let v: Value = miniserde::json::from_str(s).expect("HARNESS: bad JSON");
        conv(&v)
    }
}

fn conv(v: &Value) -> J {
    match v {
        Value::Null => J::I(-1),
        Value::Bool(b) => J::B(*b),
        Value::Number(Number::U64(n)) => J::I(*n as i64),
        Value::Number(Number::I64(n)) => J::I(*n),
        Value::Number(Number::F64(n)) => J::I(*n as i64),
        Value::String(s) => J::S(s.clone()),
        Value::Array(a) => J::A(a.iter().map(conv).collect()),
        Value::Object(o) => J::O(o.iter().map(|(k, x)| (k.clone(), conv(x))).collect()),
    }
}

impl From<i64> for J {
    fn from(x: i64) -> J {
        J::I(x)
    }
}
impl From<i32> for J {
    fn from(x: i32) -> J {
        J::I(x as i64)
    }
}
impl From<u32> for J {
    fn from(x: u32) -> J {
        J::I(if x == u32::MAX { -1 } else { x as i64 })
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::I(x as i64)
    }
}
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::B(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::S(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::S(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::A(x.into_iter().map(|y| y.into()).collect())
    }
}
impl<T: Clone + Into<J>> From<&Vec<T>> for J {
    fn from(x: &Vec<T>) -> J {
        J::A(x.iter().map(|y| y.clone().into()).collect())
    }
}
