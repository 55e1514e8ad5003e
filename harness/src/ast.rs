//! Rust syntax tree -> JSON, for the TLA+ evaluator.
use crate::json::J;
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use syn::{parse::Parser, punctuated::Punctuated};

/// Replace `$x` by the identifier `ARG__x` and `$( $x:frag ),*`-style repetitions by `ARG__<x>`.
pub fn undollar(ts: TokenStream) -> TokenStream {
  let v: Vec<TokenTree> = ts.into_iter().collect();
  let mut out: Vec<TokenTree> = vec![];
  let mut i = 0;
  while i < v.len() {
    match &v[i] {
      TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => match &v[i + 1] {
        TokenTree::Ident(id) => {
          out.push(TokenTree::Ident(Ident::new(&format!("ARG__{id}"), Span::call_site())));
          i += 2;
          continue;
        },
        TokenTree::Group(g) => {
          let inner: Vec<TokenTree> = undollar(g.stream()).into_iter().collect();
          let rest: String = v[i + 2..].iter().take(2).map(|t| t.to_string()).collect();
          if inner.len() == 1 && rest == ",*" {
            out.push(inner[0].clone());
            i += 4;
            continue;
          }
          out.push(v[i].clone());
          i += 1;
        },
        _ => {
          out.push(v[i].clone());
          i += 1;
        },
      },
      TokenTree::Group(g) => {
        let mut n = Group::new(g.delimiter(), undollar(g.stream()));
        n.set_span(g.span());
        out.push(TokenTree::Group(n));
        i += 1;
      },
      t => {
        out.push(t.clone());
        i += 1;
      },
    }
  }
  out.into_iter().collect()
}

pub fn compact(t: impl ToTokens) -> String {
  // canonical spelling of a token stream: tokens separated by single spaces
  let mut s = vec![];
  fn go(ts: TokenStream, s: &mut Vec<String>) {
    for t in ts {
      match t {
        TokenTree::Group(g) => {
          let (a, b) = match g.delimiter() {
            proc_macro2::Delimiter::Parenthesis => ("(", ")"),
            proc_macro2::Delimiter::Brace => ("{", "}"),
            proc_macro2::Delimiter::Bracket => ("[", "]"),
            proc_macro2::Delimiter::None => ("", ""),
          };
          s.push(a.into());
          go(g.stream(), s);
          s.push(b.into());
        },
        t => s.push(t.to_string()),
      }
    }
  }
  go(t.to_token_stream(), &mut s);
  s.retain(|x| !x.is_empty());
  s.join(" ")
}

pub fn limbs(mut v: u128) -> J {
  let mut o = vec![];
  while v > 0 {
    o.push(J::Int((v & 0xff) as i64));
    v >>= 8;
  }
  J::Arr(o)
}

fn k(kind: &str) -> J {
  J::obj([("k", J::s(kind))])
}

fn with<const N: usize>(kind: &str, f: [(&str, J); N]) -> J {
  let mut j = k(kind);
  for (n, v) in f {
    j.set(n, v);
  }
  j
}

/// decimal digits and exponent of a float spelling: value = 0.d1d2.. * 10^e, without leading/trailing zeros
pub fn norm_float(s: &str) -> (Vec<i64>, i64) {
  let s = s.to_ascii_lowercase().replace('_', "");
  let (m, e) = match s.split_once('e') {
    Some((m, e)) => (m.to_string(), e.parse::<i64>().unwrap_or(0)),
    None => (s.clone(), 0),
  };
  let (a, b) = match m.split_once('.') {
    Some((a, b)) => (a.to_string(), b.to_string()),
    None => (m.clone(), String::new()),
  };
  let mut digits: Vec<i64> = format!("{a}{b}").bytes().map(|c| (c - b'0') as i64).collect();
  let mut exp = e + a.len() as i64;
  while digits.first() == Some(&0) {
    digits.remove(0);
    exp -= 1;
  }
  while digits.last() == Some(&0) {
    digits.pop();
  }
  if digits.is_empty() {
    exp = 0;
  }
  (digits, exp)
}

fn float_j(kind: &str, text: &str, sfx: &str) -> J {
  let (d, e) = norm_float(text);
  with(kind, [("d", J::Arr(d.into_iter().map(J::Int).collect())), ("e", J::Int(e)), ("x", J::s(sfx))])
}

pub fn ty(t: &syn::Type) -> J {
  match t {
    syn::Type::Ptr(p) => with("ptr", [("mut", J::Bool(p.mutability.is_some())), ("t", ty(&p.elem)), ("s", J::s(compact(t)))]),
    syn::Type::Paren(p) => ty(&p.elem),
    syn::Type::Group(p) => ty(&p.elem),
    syn::Type::Reference(r) => {
      let lt = r.lifetime.as_ref().map(|l| l.to_string()).unwrap_or_default();
      with("ref", [("mut", J::Bool(r.mutability.is_some())), ("lt", J::s(lt)), ("t", ty(&r.elem)), ("s", J::s(compact(t)))])
    },
    syn::Type::Array(a) => with("arr", [("t", ty(&a.elem)), ("n", J::s(compact(&a.len))), ("s", J::s(compact(t)))]),
    syn::Type::Tuple(p) if p.elems.is_empty() => with("void", [("s", J::s("()"))]),
    syn::Type::Path(p) if p.qself.is_none() && p.path.segments.iter().all(|s| s.arguments.is_none()) => {
      let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
      let colon = if p.path.leading_colon.is_some() { "::" } else { "" };
      with("path", [("s", J::s(format!("{colon}{}", segs.join("::"))))])
    },
    _ => with("path", [("s", J::s(compact(t)))]),
  }
}

fn lit(l: &syn::Lit) -> J {
  match l {
    syn::Lit::Int(i) => {
      let t = i.base10_digits();
      let (neg, d) = match t.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, t),
      };
      match d.parse::<u128>() {
        Ok(v) => with("int", [("neg", J::Bool(neg)), ("v", limbs(v)), ("x", J::s(i.suffix()))]),
        Err(_) => with("other", [("s", J::s(t))]),
      }
    },
    syn::Lit::Float(f) => {
      let d = f.base10_digits();
      match d.strip_prefix('-') {
        Some(d) => with("un", [("op", J::s("-")), ("e", float_j("float", d, f.suffix()))]),
        None => float_j("float", d, f.suffix()),
      }
    },
    syn::Lit::Char(c) => with("char", [("v", J::Int(c.value() as i64))]),
    syn::Lit::Byte(b) => with("byte", [("v", J::Int(b.value() as i64))]),
    syn::Lit::Bool(b) => with("bool", [("v", J::Bool(b.value))]),
    syn::Lit::Str(s) => with("str", [("v", J::Arr(s.value().chars().map(|c| J::Int(c as i64)).collect()))]),
    syn::Lit::ByteStr(s) => with("bstr", [("v", J::Arr(s.value().iter().map(|c| J::Int(*c as i64)).collect()))]),
    other => {
      // negative literals produced by proc_macro2 show up as verbatim
      let t = other.to_token_stream().to_string();
      if let Some(d) = t.strip_prefix('-') {
        if let Ok(l) = syn::parse_str::<syn::Lit>(d) {
          return with("un", [("op", J::s("-")), ("e", lit(&l))]);
        }
      }
      with("other", [("s", J::s(t))])
    },
  }
}

fn path(p: &syn::Path) -> J {
  let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
  let mut targs = vec![];
  for s in &p.segments {
    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
      for a in &a.args {
        match a {
          syn::GenericArgument::Type(t) => targs.push(ty(t)),
          o => targs.push(with("path", [("s", J::s(compact(o)))])),
        }
      }
    }
  }
  let mut s = segs.join("::");
  if p.leading_colon.is_some() {
    s = format!("::{s}");
  }
  with("path", [("s", J::s(s)), ("targs", J::Arr(targs))])
}

fn codes(s: &str) -> Vec<J> {
  s.chars().map(|c| J::Int(c as i64)).collect()
}

/// `asm!`: template lines, operands, options
fn asm(input: syn::parse::ParseStream) -> syn::Result<J> {
  use syn::Token;
  let (mut tpl, mut ops, mut opts, mut abi) = (vec![], vec![], vec![], false);
  let operand = |input: syn::parse::ParseStream| -> syn::Result<J> {
    if input.peek(Token![_]) {
      input.parse::<Token![_]>()?;
      return Ok(k("wild"));
    }
    Ok(expr(&input.parse::<syn::Expr>()?))
  };
  while !input.is_empty() {
    if input.peek(syn::LitStr) {
      let s: syn::LitStr = input.parse()?;
      if !tpl.is_empty() {
        tpl.push(J::Int(10));
      }
      tpl.extend(codes(&s.value()));
    } else {
      let dir: Ident = if input.peek(Token![in]) {
        let t: Token![in] = input.parse()?;
        Ident::new_raw("in", t.span)
      } else {
        input.parse()?
      };
      let dir = dir.to_string().trim_start_matches("r#").to_string();
      let inner;
      syn::parenthesized!(inner in input);
      match dir.as_str() {
        "options" => {
          let l = Punctuated::<Ident, Token![,]>::parse_terminated(&inner)?;
          opts.extend(l.iter().map(|i| J::s(i.to_string())));
        },
        "clobber_abi" => {
          inner.parse::<TokenStream>()?;
          abi = true;
        },
        _ => {
          let (reg, explicit) = if inner.peek(syn::LitStr) {
            (inner.parse::<syn::LitStr>()?.value(), true)
          } else {
            (inner.parse::<Ident>()?.to_string(), false)
          };
          let e = operand(input)?;
          let mut o = k("none");
          if input.peek(Token![=>]) {
            input.parse::<Token![=>]>()?;
            o = operand(input)?;
          }
          ops.push(J::obj([
            ("dir", J::s(dir)),
            ("rc", J::Arr(codes(&reg))),
            ("reg", J::s(reg)),
            ("x", J::Bool(explicit)),
            ("e", e),
            ("o", o),
          ]));
        },
      }
    }
    if !input.is_empty() {
      input.parse::<Token![,]>()?;
    }
  }
  Ok(J::obj([("tpl", J::Arr(tpl)), ("ops", J::Arr(ops)), ("opts", J::Arr(opts)), ("abi", J::Bool(abi))]))
}

fn mac(m: &syn::Macro) -> J {
  let name = m.path.segments.last().unwrap().ident.to_string();
  if name == "asm" || name == "global_asm" {
    let toks = J::s(compact(&m.tokens));
    let (j, parsed) = match asm.parse2(m.tokens.clone()) {
      Ok(j) => (j, true),
      Err(_) => (J::obj([("tpl", J::Arr(vec![])), ("ops", J::Arr(vec![])), ("opts", J::Arr(vec![])), ("abi", J::Bool(false))]), false),
    };
    let mut j = j;
    j.set("k", J::s("asm"));
    j.set("n", J::s(name));
    j.set("toks", toks);
    j.set("parsed", J::Bool(parsed));
    return j;
  }
  let full = compact(&m.path).replace(' ', "");
  let args = match name.as_str() {
    "concat" | "stringify" | "line" | "file" | "concat_idents" | "format" | "offset_of"
    | "eprintln" | "println" | "addr_of_mut" | "addr_of" => {
      Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()
    },
    _ => None,
  };
  let mut j = with("mac", [("n", J::s(name)), ("full", J::s(full)), ("toks", J::s(compact(&m.tokens)))]);
  match args {
    Some(a) => {
      j.set("a", J::Arr(a.iter().map(expr).collect()));
      j.set("parsed", J::Bool(true));
    },
    None => {
      j.set("a", J::Arr(vec![]));
      j.set("parsed", J::Bool(false));
    },
  }
  j
}

pub fn expr(e: &syn::Expr) -> J {
  use syn::Expr as E;
  match e {
    E::Lit(l) => lit(&l.lit),
    E::Path(p) => {
      if p.qself.is_some() {
        return with("other", [("s", J::s(compact(e)))]);
      }
      path(&p.path)
    },
    E::Paren(p) => expr(&p.expr),
    E::Group(p) => expr(&p.expr),
    E::Unary(u) => with("un", [("op", J::s(compact(u.op))), ("e", expr(&u.expr))]),
    E::Binary(b) => with("bin", [("op", J::s(compact(b.op).replace(' ', ""))), ("l", expr(&b.left)), ("r", expr(&b.right))]),
    E::Assign(a) => with("assign", [("l", expr(&a.left)), ("r", expr(&a.right))]),
    E::Cast(c) => with("cast", [("e", expr(&c.expr)), ("t", ty(&c.ty))]),
    E::Call(c) => with("call", [("f", expr(&c.func)), ("a", J::Arr(c.args.iter().map(expr).collect()))]),
    E::MethodCall(c) => with("mcall", [
      ("e", expr(&c.receiver)),
      ("m", J::s(c.method.to_string())),
      ("a", J::Arr(c.args.iter().map(expr).collect())),
    ]),
    E::Field(f) => with("field", [("e", expr(&f.base)), ("f", J::s(compact(&f.member)))]),
    E::Index(f) => with("index", [("e", expr(&f.expr)), ("i", expr(&f.index))]),
    E::Block(b) if b.label.is_none() => block(&b.block),
    E::Unsafe(b) => block(&b.block),
    E::If(i) => with("if", [
      ("c", expr(&i.cond)),
      ("t", block(&i.then_branch)),
      ("e", i.else_branch.as_ref().map(|(_, e)| expr(e)).unwrap_or_else(|| k("none"))),
    ]),
    E::While(w) if w.label.is_none() => with("while", [("c", expr(&w.cond)), ("b", block(&w.body))]),
    E::Loop(w) if w.label.is_none() => with("loop", [("b", block(&w.body))]),
    E::Break(b) if b.label.is_none() && b.expr.is_none() => k("break"),
    E::Continue(b) if b.label.is_none() => k("continue"),
    E::Macro(m) => mac(&m.mac),
    E::Reference(r) => with("ref", [("mut", J::Bool(r.mutability.is_some())), ("e", expr(&r.expr))]),
    E::Array(a) => with("array", [("a", J::Arr(a.elems.iter().map(expr).collect()))]),
    E::Tuple(t) => with("tuple", [("a", J::Arr(t.elems.iter().map(expr).collect()))]),
    E::Verbatim(t) => {
      let s = compact(t);
      with("other", [("s", J::s(s))])
    },
    _ => with("other", [("s", J::s(compact(e)))]),
  }
}

pub fn block(b: &syn::Block) -> J {
  with("block", [("s", J::Arr(b.stmts.iter().filter(|s| !is_empty(s)).map(stmt).collect()))])
}

/// a lone `;`
fn is_empty(s: &syn::Stmt) -> bool {
  matches!(s, syn::Stmt::Expr(syn::Expr::Verbatim(t), Some(_)) if t.is_empty())
}

fn stmt(s: &syn::Stmt) -> J {
  match s {
    syn::Stmt::Expr(e, semi) => with("expr", [("e", expr(e)), ("semi", J::Bool(semi.is_some()))]),
    syn::Stmt::Macro(m) => with("expr", [("e", mac(&m.mac)), ("semi", J::Bool(m.semi_token.is_some()))]),
    syn::Stmt::Local(l) => {
      let mut pat = &l.pat;
      let mut t = k("none");
      if let syn::Pat::Type(p) = pat {
        t = ty(&p.ty);
        pat = &p.pat;
      }
      if let (syn::Pat::Tuple(p), Some(syn::Expr::Tuple(v))) = (pat, l.init.as_ref().map(|i| &*i.expr)) {
        let names: Vec<J> =
          p.elems.iter().filter_map(|p| if let syn::Pat::Ident(i) = p { Some(J::s(i.ident.to_string())) } else { None }).collect();
        if names.len() == v.elems.len() && p.elems.len() == v.elems.len() {
          return with("lets", [("ns", J::Arr(names)), ("es", J::Arr(v.elems.iter().map(expr).collect()))]);
        }
      }
      let (name, mutable) = match pat {
        syn::Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
        syn::Pat::Wild(_) => ("_".to_string(), false),
        p => (compact(p), false),
      };
      with("let", [
        ("n", J::s(name)),
        ("mut", J::Bool(mutable)),
        ("t", t),
        ("e", l.init.as_ref().map(|i| expr(&i.expr)).unwrap_or_else(|| k("none"))),
      ])
    },
    syn::Stmt::Item(i) => match i {
      syn::Item::Const(c) => {
        with("const", [("n", J::s(c.ident.to_string())), ("t", ty(&c.ty)), ("e", expr(&c.expr))])
      },
      syn::Item::Static(c) => {
        with("static", [("n", J::s(c.ident.to_string())), ("t", ty(&c.ty)), ("e", expr(&c.expr))])
      },
      syn::Item::ForeignMod(m) => with("extern", [
        ("abi", J::s(compact(&m.abi))),
        ("f", J::Arr(m.items.iter().map(foreign).collect())),
      ]),
      o => with("item", [("s", J::s(compact(o)))]),
    },
  }
}

fn foreign(i: &syn::ForeignItem) -> J {
  match i {
    syn::ForeignItem::Fn(f) => {
      let args = f
        .sig
        .inputs
        .iter()
        .map(|a| match a {
          syn::FnArg::Typed(p) => J::obj([("n", J::s(compact(&p.pat))), ("t", ty(&p.ty))]),
          o => J::obj([("n", J::s(compact(o))), ("t", k("none"))]),
        })
        .collect();
      with("fn", [
        ("n", J::s(f.sig.ident.to_string())),
        ("vis", J::s(compact(&f.vis))),
        ("args", J::Arr(args)),
        ("ret", match &f.sig.output {
          syn::ReturnType::Default => k("none"),
          syn::ReturnType::Type(_, t) => ty(t),
        }),
      ])
    },
    o => with("other", [("s", J::s(compact(o)))]),
  }
}

pub fn parse_block(ts: TokenStream) -> Result<J, String> {
  let g = TokenTree::Group(Group::new(proc_macro2::Delimiter::Brace, ts));
  let s = TokenStream::from(g);
  // go through the text, as a consumer that writes the bindings to a file does
  let b: syn::Block = syn::parse_str(&s.to_string()).map_err(|e| e.to_string())?;
  Ok(block(&b))
}

/// A `macro_rules!` definition or a function, as emitted for a function-like macro.
pub fn fn_item(ts: TokenStream) -> Result<J, String> {
  let f: syn::File = syn::parse_str(&ts.to_string()).map_err(|e| e.to_string())?;
  match f.items.as_slice() {
    [syn::Item::Fn(f)] => {
      let mut args = vec![];
      for a in &f.sig.inputs {
        if let syn::FnArg::Typed(p) = a {
          if let syn::Pat::Ident(i) = &*p.pat {
            args.push(J::obj([
              ("n", J::s(i.ident.to_string())),
              ("mut", J::Bool(i.mutability.is_some())),
              ("t", ty(&p.ty)),
            ]));
            continue;
          }
        }
        return Err("unexpected fn arg".into());
      }
      Ok(with("fn", [
        ("n", J::s(f.sig.ident.to_string())),
        ("vis", J::s(compact(&f.vis))),
        ("unsafe", J::Bool(f.sig.unsafety.is_some())),
        ("abi", J::s(f.sig.abi.as_ref().map(|a| compact(a)).unwrap_or_default())),
        ("args", J::Arr(args)),
        ("ret", match &f.sig.output {
          syn::ReturnType::Default => k("none"),
          syn::ReturnType::Type(_, t) => ty(t),
        }),
        ("body", block(&f.block)),
      ]))
    },
    [syn::Item::Macro(m), syn::Item::Use(u)] => {
      let name = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
      let export = m.attrs.iter().any(|a| compact(a).contains("macro_export"));
      // ( params ) => { body } ;
      let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
      let (params, body) = match v.as_slice() {
        [TokenTree::Group(p), _, _, TokenTree::Group(b), ..] => (p.stream(), b.stream()),
        _ => return Err("macro_rules shape".into()),
      };
      let mut ps = vec![];
      let p: Vec<TokenTree> = params.into_iter().collect();
      let mut i = 0;
      while i < p.len() {
        match (&p[i], p.get(i + 1), p.get(i + 2), p.get(i + 3)) {
          (TokenTree::Punct(d), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(f)))
            if d.as_char() == '$' && c.as_char() == ':' =>
          {
            ps.push(J::obj([("n", J::s(n.to_string())), ("frag", J::s(f.to_string()))]));
            i += 4;
          },
          (TokenTree::Punct(d), Some(TokenTree::Group(g)), _, _) if d.as_char() == '$' => {
            let rest: String = p[i + 2..].iter().map(|t| t.to_string()).collect();
            ps.push(J::obj([("n", J::s("...")), ("frag", J::s(format!("{}{}", compact(g.stream()), rest)))]));
            i = p.len();
          },
          _ => return Err(format!("macro params: {}", p[i])),
        }
        if let Some(TokenTree::Punct(c)) = p.get(i) {
          if c.as_char() == ',' {
            i += 1;
          }
        }
      }
      let body_txt = compact(body.clone());
      let body = undollar(body);
      // used as an expression, the expansion is parsed as one
      let b = match syn::parse_str::<syn::Expr>(&body.to_string()) {
        Ok(e) => Ok(with("block", [("s", J::Arr(vec![with("expr", [("e", expr(&e)), ("semi", J::Bool(false))])]))])),
        Err(_) => parse_block(body),
      };
      let mut j = with("macro", [
        ("n", J::s(name)),
        ("export", J::Bool(export)),
        ("use", J::s(compact(u).replace("pub use", "").trim().to_string())),
        ("params", J::Arr(ps)),
        ("btxt", J::s(body_txt)),
      ]);
      match b {
        Ok(b) => {
          j.set("body", b);
          j.set("perr", J::s(""));
        },
        Err(e) => {
          j.set("body", k("none"));
          j.set("perr", J::s(e));
        },
      }
      Ok(j)
    },
    _ => Err(format!("unexpected items: {}", f.items.len())),
  }
}
