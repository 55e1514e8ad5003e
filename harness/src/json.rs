//! Minimal JSON reader/writer, so that the harness needs no crate that /repo does not already use.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
  Null,
  Bool(bool),
  Int(i64),
  Str(String),
  Arr(Vec<J>),
  Obj(BTreeMap<String, J>),
}

impl J {
  pub fn s(s: impl Into<String>) -> J {
    J::Str(s.into())
  }
  pub fn obj<const N: usize>(fields: [(&str, J); N]) -> J {
    J::Obj(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
  }
  pub fn get(&self, k: &str) -> &J {
    match self {
      J::Obj(m) => m.get(k).unwrap_or(&J::Null),
      _ => &J::Null,
    }
  }
  pub fn as_str(&self) -> Option<&str> {
    if let J::Str(s) = self { Some(s) } else { None }
  }
  pub fn str(&self) -> &str {
    self.as_str().expect("string expected")
  }
  pub fn arr(&self) -> &[J] {
    match self {
      J::Arr(v) => v,
      J::Null => &[],
      _ => panic!("array expected"),
    }
  }
  pub fn is_null(&self) -> bool {
    matches!(self, J::Null)
  }
  pub fn strs(&self) -> Vec<String> {
    self.arr().iter().map(|j| j.str().to_string()).collect()
  }
  pub fn set(&mut self, k: &str, v: J) {
    if let J::Obj(m) = self {
      m.insert(k.to_string(), v);
    }
  }

  pub fn write(&self, o: &mut String) {
    match self {
      J::Null => o.push_str("null"),
      J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
      J::Int(i) => write!(o, "{i}").unwrap(),
      J::Str(s) => write_str(s, o),
      J::Arr(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          x.write(o);
        }
        o.push(']');
      },
      J::Obj(m) => {
        o.push('{');
        for (i, (k, x)) in m.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          write_str(k, o);
          o.push(':');
          x.write(o);
        }
        o.push('}');
      },
    }
  }
}

fn write_str(s: &str, o: &mut String) {
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          write!(o, "\\u{:04x}", u).unwrap();
        }
      },
      c => o.push(c),
    }
  }
  o.push('"');
}

pub fn parse(s: &str) -> Result<J, String> {
  let b: Vec<char> = s.chars().collect();
  let mut i = 0;
  let v = val(&b, &mut i)?;
  ws(&b, &mut i);
  if i != b.len() {
    return Err(format!("trailing data at {i}"));
  }
  Ok(v)
}

fn ws(b: &[char], i: &mut usize) {
  while *i < b.len() && b[*i].is_ascii_whitespace() {
    *i += 1;
  }
}

fn val(b: &[char], i: &mut usize) -> Result<J, String> {
  ws(b, i);
  match b.get(*i) {
    None => Err("eof".into()),
    Some('n') => {
      *i += 4;
      Ok(J::Null)
    },
    Some('t') => {
      *i += 4;
      Ok(J::Bool(true))
    },
    Some('f') => {
      *i += 5;
      Ok(J::Bool(false))
    },
    Some('"') => Ok(J::Str(string(b, i)?)),
    Some('[') => {
      *i += 1;
      let mut v = vec![];
      ws(b, i);
      if b.get(*i) == Some(&']') {
        *i += 1;
        return Ok(J::Arr(v));
      }
      loop {
        v.push(val(b, i)?);
        ws(b, i);
        match b.get(*i) {
          Some(',') => *i += 1,
          Some(']') => {
            *i += 1;
            return Ok(J::Arr(v));
          },
          c => return Err(format!("array: {c:?}")),
        }
      }
    },
    Some('{') => {
      *i += 1;
      let mut m = BTreeMap::new();
      ws(b, i);
      if b.get(*i) == Some(&'}') {
        *i += 1;
        return Ok(J::Obj(m));
      }
      loop {
        ws(b, i);
        let k = string(b, i)?;
        ws(b, i);
        if b.get(*i) != Some(&':') {
          return Err("colon".into());
        }
        *i += 1;
        m.insert(k, val(b, i)?);
        ws(b, i);
        match b.get(*i) {
          Some(',') => *i += 1,
          Some('}') => {
            *i += 1;
            return Ok(J::Obj(m));
          },
          c => return Err(format!("object: {c:?}")),
        }
      }
    },
    Some(c) if *c == '-' || c.is_ascii_digit() => {
      let st = *i;
      *i += 1;
      while *i < b.len() && b[*i].is_ascii_digit() {
        *i += 1;
      }
      b[st..*i].iter().collect::<String>().parse().map(J::Int).map_err(|e| e.to_string())
    },
    Some(c) => Err(format!("unexpected {c}")),
  }
}

fn string(b: &[char], i: &mut usize) -> Result<String, String> {
  if b.get(*i) != Some(&'"') {
    return Err("string".into());
  }
  *i += 1;
  let mut u: Vec<u16> = vec![];
  loop {
    let c = *b.get(*i).ok_or("eof")?;
    *i += 1;
    match c {
      '"' => return String::from_utf16(&u).map_err(|e| e.to_string()),
      '\\' => {
        let e = *b.get(*i).ok_or("eof")?;
        *i += 1;
        let c = match e {
          'n' => '\n',
          'r' => '\r',
          't' => '\t',
          'b' => '\u{8}',
          'f' => '\u{c}',
          'u' => {
            let h: String = b[*i..*i + 4].iter().collect();
            *i += 4;
            u.push(u16::from_str_radix(&h, 16).map_err(|e| e.to_string())?);
            continue;
          },
          c => c,
        };
        u.push(c as u16);
      },
      c => {
        let mut x = [0u16; 2];
        u.extend_from_slice(c.encode_utf16(&mut x));
      },
    }
  }
}
