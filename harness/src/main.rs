mod ast;
mod json;
use cmacro::{
  CodegenContext, CodegenError, ExpansionError, FnMacro, Lit, LitChar, LitFloat, LitString, MacroArg, MacroSet,
  MacroToken, ParserError, VarMacro,
};
use json::J;
use std::{
  collections::BTreeMap,
  io::{BufRead, Write},
  panic::{catch_unwind, AssertUnwindSafe},
};

const PUNCTS: &[&str] = &[
  "[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>", "<", ">",
  "<=", ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=",
  "&=", "^=", "|=", ",", "#", "##", "<:", ":>", "<%", "%>", "%:", "%:%:",
];

fn big(v: u32) -> J {
  J::Int(if v >= 1 << 31 { v as i64 - (1i64 << 32) } else { v as i64 })
}

fn tok(t: &MacroToken) -> J {
  let k = |k: &str, v: J| J::obj([("k", J::s(k)), ("v", v)]);
  match t {
    MacroToken::Arg(a) => k("arg", J::Int((0..256).find(|i| *a == MacroArg::new(*i)).map(|i| i as i64).unwrap_or(-1))),
    MacroToken::Identifier(i) => k("id", J::s(i.as_str())),
    MacroToken::IdentifierContinue(i) => k("cont", J::s(i.as_str())),
    MacroToken::Punctuation(p) => k("p", J::s(PUNCTS.iter().find(|s| p == *s).copied().unwrap_or("?unknown"))),
    MacroToken::Comment(_) => k("cm", J::s("")),
    MacroToken::Lit(Lit::Int(i)) => {
      let mut j = k("int", ast::limbs(i.value.unsigned_abs()));
      j.set("neg", J::Bool(i.value < 0));
      j.set("x", J::s(i.suffix.as_ref().map(|s| format!("{s:?}")).unwrap_or_default()));
      j
    },
    MacroToken::Lit(Lit::Float(f)) => {
      let (t, x) = match f {
        LitFloat::Float(f) => (format!("{f:e}"), "f"),
        LitFloat::Double(f) => (format!("{f:e}"), ""),
        LitFloat::LongDouble(f) => (format!("{f:e}"), "l"),
      };
      let mut j = k("flt", J::s(""));
      let (d, e) = if t.contains("inf") || t.contains("NaN") { (vec![-1], 0) } else { ast::norm_float(&t) };
      j.set("d", J::Arr(d.into_iter().map(J::Int).collect()));
      j.set("e", J::Int(e));
      j.set("x", J::s(x));
      j
    },
    MacroToken::Lit(Lit::Char(c)) => {
      let (p, v) = match c {
        LitChar::Ordinary(c) => ("", *c as u32),
        LitChar::Utf8(c) => ("u8", *c as u32),
        LitChar::Utf16(c) => ("u", *c as u32),
        LitChar::Utf32(c) => ("U", *c),
        LitChar::Wide(c) => ("L", *c),
      };
      let mut j = k("chr", J::Arr(vec![big(v)]));
      j.set("p", J::s(p));
      j
    },
    MacroToken::Lit(Lit::String(s)) => {
      let (p, v): (_, Vec<u32>) = match s {
        LitString::Ordinary(b) => ("", b.iter().map(|b| *b as u32).collect()),
        LitString::Utf8(s) => ("u8", s.bytes().map(|b| b as u32).collect()),
        LitString::Utf16(s) => ("u", s.encode_utf16().map(|b| b as u32).collect()),
        LitString::Utf32(s) => ("U", s.chars().map(|b| b as u32).collect()),
        LitString::Wide(w) => ("L", w.clone()),
      };
      let mut j = k("str", J::Arr(v.into_iter().map(big).collect()));
      j.set("p", J::s(p));
      j
    },
  }
}

fn toks(t: &[MacroToken]) -> J {
  J::Arr(t.iter().map(tok).collect())
}

fn exp_err(e: &ExpansionError) -> J {
  let (n, d) = match e {
    ExpansionError::MacroNotFound => ("MacroNotFound", String::new()),
    ExpansionError::InvalidToken(t) => ("InvalidToken", t.clone()),
    ExpansionError::FnMacroArgumentError { name, required, given } => {
      ("FnMacroArgumentError", format!("{name}/{required}/{given}"))
    },
    ExpansionError::ConcatBegin => ("ConcatBegin", String::new()),
    ExpansionError::ConcatEnd => ("ConcatEnd", String::new()),
    ExpansionError::NonVariadicVarArgs => ("NonVariadicVarArgs", String::new()),
    ExpansionError::NonUniqueArgument(a) => ("NonUniqueArgument", a.clone()),
    ExpansionError::StringifyNonArgument => ("StringifyNonArgument", String::new()),
    ExpansionError::InvalidConcat => ("InvalidConcat", String::new()),
    ExpansionError::InvalidArgumentName => ("InvalidArgumentName", String::new()),
  };
  J::obj([("s", J::s("err")), ("e", J::s(n)), ("d", J::s(d)), ("st", J::s("expand"))])
}

fn parse_err(e: &ParserError) -> J {
  let n = match e {
    ParserError::InvalidMacroName => "InvalidMacroName",
    ParserError::InvalidMacroArgs => "InvalidMacroArgs",
    ParserError::InvalidMacroBody => "InvalidMacroBody",
  };
  J::obj([("s", J::s("err")), ("e", J::s(n)), ("d", J::s("")), ("st", J::s("parse"))])
}

fn gen_err(e: &CodegenError) -> J {
  let (n, d) = match e {
    CodegenError::RecursiveDefinition(s) => ("RecursiveDefinition", s.clone()),
    CodegenError::NonExpressionVarMacro => ("NonExpressionVarMacro", String::new()),
    CodegenError::NonConstantVarMacro => ("NonConstantVarMacro", String::new()),
    CodegenError::UnsupportedExpression(s) => ("UnsupportedExpression", s.clone()),
    CodegenError::UnsupportedType(s) => ("UnsupportedType", s.clone()),
  };
  J::obj([("s", J::s("err")), ("e", J::s(n)), ("d", J::s(d)), ("st", J::s("generate"))])
}

#[derive(Default)]
struct Cx {
  target: Option<String>,
  ffi: Option<String>,
  tr: Option<String>,
  args: BTreeMap<String, String>,
  types: BTreeMap<String, String>,
  fields: BTreeMap<String, String>,
  enums: BTreeMap<String, (String, String)>,
  funcs: BTreeMap<String, (Vec<String>, String)>,
  // resolve every type name that is not listed in `types` to itself
  ident_types: bool,
  // record the tokens of the generated code
  toks: bool,
}

/// The tokens of a stream one after the other, delimiters included.
fn flat(ts: proc_macro2::TokenStream, out: &mut Vec<J>) {
  use proc_macro2::{Delimiter, TokenTree};
  let mut lifetime = false;
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (o, c) = match g.delimiter() {
          Delimiter::Parenthesis => ("(", ")"),
          Delimiter::Brace => ("{", "}"),
          Delimiter::Bracket => ("[", "]"),
          Delimiter::None => ("", ""),
        };
        out.push(J::s(o));
        flat(g.stream(), out);
        out.push(J::s(c));
      },
      TokenTree::Ident(i) => {
        out.push(J::s(format!("{}{i}", if lifetime { "'" } else { "" })));
        lifetime = false;
      },
      TokenTree::Punct(p) if p.as_char() == '\'' => lifetime = true,
      TokenTree::Punct(p) => out.push(J::s(p.as_char().to_string())),
      TokenTree::Literal(l) => out.push(J::s(l.to_string())),
    }
  }
}

fn flat_toks(ts: proc_macro2::TokenStream) -> J {
  let mut v = vec![];
  flat(ts, &mut v);
  J::Arr(v)
}

impl Cx {
  fn from_json(j: &J) -> Cx {
    let opt = |k: &str| j.get(k).as_str().filter(|s| !s.is_empty()).map(|s| s.to_string());
    let map = |k: &str| -> BTreeMap<String, String> {
      match j.get(k) {
        J::Obj(m) => m.iter().map(|(k, v)| (k.clone(), v.str().to_string())).collect(),
        _ => BTreeMap::new(),
      }
    };
    Cx {
      target: opt("target"),
      ffi: opt("ffi"),
      tr: opt("trait"),
      args: map("args"),
      types: map("types"),
      fields: map("fields"),
      enums: match j.get("enums") {
        J::Obj(m) => m
          .iter()
          .map(|(k, v)| (k.clone(), (v.arr()[0].str().to_string(), v.arr()[1].str().to_string())))
          .collect(),
        _ => BTreeMap::new(),
      },
      funcs: match j.get("funcs") {
        J::Obj(m) => m
          .iter()
          .map(|(k, v)| (k.clone(), (v.arr()[0].strs(), v.arr()[1].str().to_string())))
          .collect(),
        _ => BTreeMap::new(),
      },
      ident_types: matches!(j.get("ident_types"), J::Bool(true)),
      toks: matches!(j.get("toks"), J::Bool(true)),
    }
  }
}

fn pty(s: &str) -> syn::Type {
  syn::parse_str(s).unwrap_or_else(|e| panic!("harness: bad context type {s:?}: {e}"))
}

impl CodegenContext for Cx {
  fn rust_target(&self) -> Option<String> {
    self.target.clone()
  }
  fn ffi_prefix(&self) -> Option<syn::Path> {
    self.ffi.as_ref().map(|s| syn::parse_str(s).unwrap())
  }
  fn trait_prefix(&self) -> Option<syn::Path> {
    self.tr.as_ref().map(|s| syn::parse_str(s).unwrap())
  }
  fn macro_arg_ty(&self, m: &str, a: &str) -> Option<syn::Type> {
    self.args.get(&format!("{m}/{a}")).map(|s| pty(s))
  }
  fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
    self.enums.get(v).map(|(t, e)| (pty(t), syn::parse_str(e).unwrap()))
  }
  fn resolve_ty(&self, t: &str) -> Option<syn::Type> {
    if let Some(s) = self.types.get(t) {
      return if s.is_empty() { None } else { Some(pty(s)) };
    }
    if self.ident_types {
      return syn::parse_str(t).ok();
    }
    None
  }
  fn resolve_field_ty(&self, t: &str, f: &str) -> Option<syn::Type> {
    self.fields.get(&format!("{t}/{f}")).map(|s| pty(s))
  }
  fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
    self.funcs.get(n).map(|(a, r)| (a.iter().map(|s| pty(s)).collect(), pty(r)))
  }
}

fn guarded(f: impl FnOnce() -> J) -> J {
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(j) => j,
    Err(p) => {
      let m = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
      if m.starts_with("harness:") {
        eprintln!("{m}");
        std::process::exit(3);
      }
      J::obj([("s", J::s("panic")), ("d", J::s(m)), ("e", J::s("")), ("st", J::s(""))])
    },
  }
}

fn ok() -> J {
  J::obj([("s", J::s("ok"))])
}

fn gen_var(ms: &MacroSet, name: &str, cx: &Cx) -> J {
  let body = match ms.expand_var_macro(name) {
    Ok(b) => b,
    Err(e) => return exp_err(&e),
  };
  let mut vm = match VarMacro::parse(name, &body) {
    Ok(v) => v,
    Err(e) => return parse_err(&e),
  };
  let (t, ty) = match vm.generate(cx) {
    Ok(x) => x,
    Err(e) => return gen_err(&e),
  };
  let mut j = ok();
  j.set("txt", J::s(t.to_string()));
  if cx.toks {
    j.set("toks", flat_toks(t.clone()));
    j.set("ttoks", flat_toks(ty.clone().unwrap_or_default()));
  }
  j.set("tty", J::s(ty.as_ref().map(|t| ast::compact(t)).unwrap_or_default()));
  match syn::parse_str::<syn::Expr>(&t.to_string()) {
    Ok(e) => {
      j.set("perr", J::s(""));
      j.set("ast", ast::expr(&e));
    },
    Err(e) => j.set("perr", J::s(e.to_string())),
  }
  if let Some(ty) = ty {
    match syn::parse_str::<syn::Type>(&ty.to_string()) {
      Ok(t) => j.set("ty", ast::ty(&t)),
      Err(e) => j.set("perr", J::s(format!("type: {e}"))),
    }
  } else {
    j.set("ty", J::obj([("k", J::s("none"))]));
  }
  j
}

fn gen_fn(ms: &MacroSet, name: &str, cx: &Cx) -> J {
  let (args, body) = match ms.expand_fn_macro(name) {
    Ok(b) => b,
    Err(e) => return exp_err(&e),
  };
  let mut fm = match FnMacro::parse(name, &args, &body) {
    Ok(v) => v,
    Err(e) => return parse_err(&e),
  };
  let pargs = J::Arr(fm.args().iter().map(|s| J::s(s.as_str())).collect());
  let t = match fm.generate(cx) {
    Ok(x) => x,
    Err(e) => return gen_err(&e),
  };
  let mut j = ok();
  j.set("txt", J::s(t.to_string()));
  j.set("pargs", pargs);
  if cx.toks {
    j.set("toks", flat_toks(t.clone()));
    j.set("ttoks", J::Arr(vec![]));
  }
  match ast::fn_item(t) {
    Ok(i) => {
      j.set("perr", i.get("perr").as_str().map(|s| J::s(s)).unwrap_or(J::s("")));
      j.set("item", i);
    },
    Err(e) => j.set("perr", J::s(e)),
  }
  j
}

fn step(ms: &mut MacroSet, st: &J, cx: &Cx) -> J {
  let n = st.get("n").as_str().unwrap_or("");
  let b = || st.get("b").strs();
  match st.get("op").str() {
    "dv" => J::Bool(ms.define_var_macro(n, b())),
    "df" => J::Bool(ms.define_fn_macro(n, st.get("a").strs(), b())),
    "uv" => J::Bool(ms.undefine_var_macro(n)),
    "uf" => J::Bool(ms.undefine_fn_macro(n)),
    "ev" => {
      let ms = &*ms;
      guarded(|| match ms.expand_var_macro(n) {
        Ok(t) => {
          let mut j = ok();
          j.set("t", toks(&t));
          j
        },
        Err(e) => exp_err(&e),
      })
    },
    "ef" => {
      let ms = &*ms;
      guarded(|| match ms.expand_fn_macro(n) {
        Ok((a, t)) => {
          let mut j = ok();
          j.set("a", toks(&a));
          j.set("t", toks(&t));
          j
        },
        Err(e) => exp_err(&e),
      })
    },
    "ex" => {
      let ms = &*ms;
      let body = b();
      guarded(|| match ms.expand(&body) {
        Ok(t) => {
          let mut j = ok();
          j.set("t", toks(&t));
          j
        },
        Err(e) => exp_err(&e),
      })
    },
    // a type from its text
    "ts" => guarded(|| match st.get("t").str().parse::<cmacro::Type>() {
      Ok(t) => match t.to_rust_ty(cx) {
        Some(t) => {
          let mut j = ok();
          j.set("ty", ast::ty(&t));
          j
        },
        None => J::obj([("s", J::s("err")), ("e", J::s("none")), ("d", J::s("")), ("st", J::s("ts"))]),
      },
      Err(e) => gen_err(&e),
    }),
    "gv" => {
      let ms = &*ms;
      guarded(|| gen_var(ms, n, cx))
    },
    "gf" => {
      let ms = &*ms;
      guarded(|| gen_fn(ms, n, cx))
    },
    o => {
      eprintln!("harness: unknown op {o}");
      std::process::exit(3)
    },
  }
}

fn run(line: &str) -> String {
  let mut job = match json::parse(line) {
    Ok(j) => j,
    Err(e) => {
      eprintln!("harness: bad job: {e}: {line}");
      std::process::exit(3)
    },
  };
  let cx = Cx::from_json(job.get("cx"));
  let mut ms = MacroSet::new();
  let mut out = vec![];
  for st in job.get("steps").arr() {
    let own = st.get("cx");
    let r = if !own.is_null() { step(&mut ms, st, &Cx::from_json(own)) } else { step(&mut ms, st, &cx) };
    let mut s = st.clone();
    s.set("r", r);
    out.push(s);
  }
  job.set("steps", J::Arr(out));
  let mut o = String::new();
  job.write(&mut o);
  o
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let t = std::thread::Builder::new()
    .stack_size(256 << 20)
    .spawn(|| {
      let stdin = std::io::stdin();
      let stdout = std::io::stdout();
      let mut w = std::io::BufWriter::new(stdout.lock());
      for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
          continue;
        }
        let o = run(&line);
        writeln!(w, "{o}").unwrap();
        w.flush().unwrap();
      }
      w.flush().unwrap();
    })
    .unwrap();
  if t.join().is_err() {
    std::process::exit(3);
  }
}
