//! As much of JSON as is needed.

#[derive(Debug, Clone, PartialEq)]
pub enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

impl std::fmt::Display for Json {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Json::Null => write!(f, "null"),
            Json::Bool(b) => write!(f, "{}", b),
            Json::Num(n) => write!(f, "{}", n),
            Json::Str(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        '\n' => write!(f, "\\n")?,
                        c if (c as u32) < 32 || c as u32 == 127 => write!(f, "\\u{:04x}", c as u32)?,
                        c => write!(f, "{}", c)?,
                    }
                }
                write!(f, "\"")
            }
            Json::Arr(v) => {
                write!(f, "[")?;
                for (k, j) in v.iter().enumerate() {
                    write!(f, "{}{}", if k > 0 { ", " } else { "" }, j)?;
                }
                write!(f, "]")
            }
            Json::Obj(v) => {
                write!(f, "{{")?;
                for (k, (n, j)) in v.iter().enumerate() {
                    write!(f, "{}{}: {}", if k > 0 { ", " } else { "" }, Json::Str(n.clone()), j)?;
                }
                write!(f, "}}")
            }
        }
    }
}

impl Json {
    pub fn get(&self, k: &str) -> Option<&Json> {
        match self {
            Json::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            Json::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            Json::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn parse(s: &str) -> Option<Json> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        value(&c, &mut i)
    }
}

fn blank(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i].is_whitespace() {
        *i += 1;
    }
}

fn value(c: &[char], i: &mut usize) -> Option<Json> {
    blank(c, i);
    match c.get(*i)? {
        'n' => {
            *i += 4;
            Some(Json::Null)
        }
        't' => {
            *i += 4;
            Some(Json::Bool(true))
        }
        'f' => {
            *i += 5;
            Some(Json::Bool(false))
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let ch = *c.get(*i)?;
                *i += 1;
                match ch {
                    '"' => return Some(Json::Str(s)),
                    '\\' => {
                        let e = *c.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'u' => {
                                let h: String = c.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            e => s.push(e),
                        }
                    }
                    ch => s.push(ch),
                }
            }
        }
        '[' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                blank(c, i);
                match c.get(*i)? {
                    ']' => {
                        *i += 1;
                        return Some(Json::Arr(v));
                    }
                    ',' => *i += 1,
                    _ => v.push(value(c, i)?),
                }
            }
        }
        '{' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                blank(c, i);
                match c.get(*i)? {
                    '}' => {
                        *i += 1;
                        return Some(Json::Obj(v));
                    }
                    ',' => *i += 1,
                    _ => {
                        let k = match value(c, i)? {
                            Json::Str(s) => s,
                            _ => return None,
                        };
                        blank(c, i);
                        if c.get(*i)? != &':' {
                            return None;
                        }
                        *i += 1;
                        v.push((k, value(c, i)?));
                    }
                }
            }
        }
        _ => {
            let mut s = String::new();
            while *i < c.len() && (c[*i].is_ascii_alphanumeric() || "+-.".contains(c[*i])) {
                s.push(c[*i]);
                *i += 1;
            }
            s.parse().ok().map(Json::Num)
        }
    }
}
