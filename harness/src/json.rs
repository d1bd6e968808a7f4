//! A small JSON reader and string escaper (the harness has no dependencies).
#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(ref v) = *self {
            for &(ref a, ref b) in v {
                if a == k {
                    return b;
                }
            }
        }
        &J::Null
    }
    pub fn arr(&self) -> &[J] {
        match *self {
            J::Arr(ref v) => v,
            _ => &[],
        }
    }
    pub fn s(&self) -> &str {
        match *self {
            J::Str(ref s) => s,
            _ => "",
        }
    }
    pub fn n(&self) -> i64 {
        match *self {
            J::Num(n) => n,
            _ => 0,
        }
    }
    pub fn strs(&self) -> Vec<String> {
        self.arr().iter().map(|x| x.s().to_string()).collect()
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    val(b, &mut p)
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] == b' ' || b[*p] == b'\n' || b[*p] == b'\t' || b[*p] == b'\r') {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let x = val(b, p);
                v.push((k, x));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p));
            }
        }
        b'"' => J::Str(string(b, p)),
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::Num(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"');
    *p += 1;
    let mut out = Vec::new();
    while b[*p] != b'"' {
        if b[*p] == b'\\' {
            *p += 1;
            match b[*p] {
                b'n' => out.push(b'\n'),
                b't' => out.push(b'\t'),
                b'r' => out.push(b'\r'),
                b'u' => {
                    let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                    let c = std::char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                    let mut buf = [0; 4];
                    out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                    *p += 4;
                }
                c => out.push(c),
            }
            *p += 1;
        } else {
            out.push(b[*p]);
            *p += 1;
        }
    }
    *p += 1;
    String::from_utf8(out).unwrap()
}

/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn jl<I: IntoIterator<Item = String>>(items: I) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for i in items {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&i);
    }
    o.push(']');
    o
}

pub fn jstrs(v: &[String]) -> String {
    jl(v.iter().map(|x| js(x)))
}

pub fn jinst(v: &[Vec<String>]) -> String {
    jl(v.iter().map(|x| jstrs(x)))
}

/// Text as it is recorded: bytes outside printable ASCII, and backslashes, as backslash and two digits.
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for &b in s.as_bytes() {
        if b < 0x20 || b > 0x7e || b == b'\\' {
            o.push_str(&format!("\\{:02x}", b));
        } else {
            o.push(b as char);
        }
    }
    o
}
