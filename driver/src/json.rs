//! Just enough JSON to read the scenario lines written by the specification (spec/Gen.tla):
//! objects of integers, strings and arrays of integers.
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum V {
    I(i64),
    S(String),
    A(Vec<i64>),
}

pub type Obj = HashMap<String, V>;

pub fn parse_line(s: &str) -> Obj {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = Obj::new();
    ws(b, &mut i);
    assert_eq!(b[i], b'{', "object expected");
    i += 1;
    loop {
        ws(b, &mut i);
        if b[i] == b'}' {
            break;
        }
        if b[i] == b',' {
            i += 1;
            continue;
        }
        let k = string(b, &mut i);
        ws(b, &mut i);
        assert_eq!(b[i], b':');
        i += 1;
        ws(b, &mut i);
        let v = match b[i] {
            b'"' => V::S(string(b, &mut i)),
            b'[' => {
                i += 1;
                let mut a = vec![];
                loop {
                    ws(b, &mut i);
                    match b[i] {
                        b']' => {
                            i += 1;
                            break;
                        }
                        b',' => i += 1,
                        _ => a.push(int(b, &mut i)),
                    }
                }
                V::A(a)
            }
            _ => V::I(int(b, &mut i)),
        };
        o.insert(k, v);
    }
    o
}

fn ws(b: &[u8], i: &mut usize) {
    while b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn string(b: &[u8], i: &mut usize) -> String {
    assert_eq!(b[*i], b'"');
    let s = *i + 1;
    let mut e = s;
    while b[e] != b'"' {
        e += 1;
    }
    *i = e + 1;
    String::from_utf8(b[s..e].to_vec()).unwrap()
}

fn int(b: &[u8], i: &mut usize) -> i64 {
    let s = *i;
    if b[*i] == b'-' {
        *i += 1;
    }
    while *i < b.len() && b[*i].is_ascii_digit() {
        *i += 1;
    }
    std::str::from_utf8(&b[s..*i]).unwrap().parse().expect("integer")
}

pub trait Get {
    fn i(&self, k: &str) -> i64;
    fn io(&self, k: &str, d: i64) -> i64;
    fn s(&self, k: &str) -> &str;
    fn so(&self, k: &str) -> &str;
    fn a(&self, k: &str) -> &[i64];
}

impl Get for Obj {
    fn i(&self, k: &str) -> i64 {
        match self.get(k) {
            Some(V::I(v)) => *v,
            x => panic!("field {k}: {x:?}"),
        }
    }
    fn io(&self, k: &str, d: i64) -> i64 {
        match self.get(k) {
            Some(V::I(v)) => *v,
            _ => d,
        }
    }
    fn s(&self, k: &str) -> &str {
        match self.get(k) {
            Some(V::S(v)) => v,
            x => panic!("field {k}: {x:?}"),
        }
    }
    fn so(&self, k: &str) -> &str {
        match self.get(k) {
            Some(V::S(v)) => v,
            _ => "",
        }
    }
    fn a(&self, k: &str) -> &[i64] {
        match self.get(k) {
            Some(V::A(v)) => v,
            _ => &[],
        }
    }
}
