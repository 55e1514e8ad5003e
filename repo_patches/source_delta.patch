From 2849e0a739d4c6cbec44ff1321ec9237912ff2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 01/73] fix: let only parentheses group macro call arguments

---
 src/macro_set/mod.rs | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9096967..9fcc1a1 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -578,7 +578,7 @@ impl MacroSet {
     's: 't,
     I: Iterator<Item = Token<'t>> + Clone,
   {
-    let mut parentheses = vec![]; // Keep track of parenthesis pairs.
+    let mut parentheses = 0; // Keep track of parenthesis pairs, other brackets do not group arguments.
     let mut args = vec![];
     let mut current_arg = vec![];
 
@@ -592,35 +592,20 @@ impl MacroSet {
     while let Some(token) = it2.next() {
       match token {
         Token::Punctuation(p) => {
-          let pop = |parentheses: &mut Vec<char>, open, close| match parentheses.pop() {
-            Some(p) => {
-              if p == open {
-                Ok(())
-              } else {
-                Err(CollectArgsError::UnclosedParenthesis(p))
-              }
-            },
-            None => Err(CollectArgsError::MissingOpenParenthesis(close)),
-          };
-
           match p.as_str() {
-            "(" => parentheses.push('('),
+            "(" => parentheses += 1,
             ")" => {
-              if parentheses.is_empty() {
+              if parentheses == 0 {
                 args.push(mem::take(&mut current_arg));
 
                 *it = it2;
                 return Ok(args)
               } else {
-                pop(&mut parentheses, '(', ')')?
+                parentheses -= 1;
               }
             },
-            "[" => parentheses.push('['),
-            "]" => pop(&mut parentheses, '[', ']')?,
-            "{" => parentheses.push('{'),
-            "}" => pop(&mut parentheses, '{', '}')?,
             "," => {
-              if parentheses.is_empty() {
+              if parentheses == 0 {
                 args.push(mem::take(&mut current_arg));
                 continue
               }
-- 
2.43.0


From fcc7dfd74588f8d3399fac461c711c2f3b121b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 02/73] fix: report a redefinition when one definition is a
 prefix of the other

---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9fcc1a1..cdf5f01 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -753,7 +753,7 @@ impl MacroSet {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
-      !old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2)
+      !old_tokens.eq(new_tokens)
     } else {
       self.fn_macros.remove(&name).is_some()
     };
@@ -799,11 +799,11 @@ impl MacroSet {
     let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
-      let args_equal = old_args.zip(new_args).all(|(old_arg, arg)| old_arg == arg);
+      let args_equal = old_args.eq(new_args);
 
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
-      let tokens_equal = old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2);
+      let tokens_equal = old_tokens.eq(new_tokens);
 
       !(args_equal && tokens_equal)
     } else {
-- 
2.43.0


From 7176a25102025bbec188ca070c3f3df7d523f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 03/73] fix: do not macro-expand the operands of ##

---
 src/macro_set/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index cdf5f01..cf777ee 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -665,8 +665,7 @@ impl MacroSet {
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
+              // Operands of `##` are not macro-expanded.
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
@@ -674,8 +673,7 @@ impl MacroSet {
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
+              // Operands of `##` are not macro-expanded.
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-- 
2.43.0


From 13667df11102a50844c01699d34a99ac7503a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 04/73] fix: report missing arguments of a variadic macro
 instead of panicking

---
 src/macro_set/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index cf777ee..805a68c 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -539,6 +539,15 @@ impl MacroSet {
           })
         }
       }
+    } else if let Some(args) = args {
+      // Variable arguments may be omitted, named arguments may not.
+      if args.len() < arg_names.len() - 1 {
+        return Err(ExpansionError::FnMacroArgumentError {
+          name: name.to_owned(),
+          required: arg_names.len() - 1,
+          given: args.len(),
+        })
+      }
     }
 
     // Parameter names must be unique.
-- 
2.43.0


From c63f9ff7c61e844e9486e577dc69d57d0785c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 05/73] fix: do not treat # and ## tokens coming from an
 argument as operators

---
 src/macro_set/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 805a68c..2ef8106 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -668,6 +668,14 @@ impl MacroSet {
             var_args
           };
 
+          // `#` and `##` tokens coming from an argument are not operators.
+          let extend_with_arg = |tokens: &mut Vec<Token<'t>>, arg: Vec<Token<'t>>| {
+            tokens.extend(arg.into_iter().map(|t| match t {
+              Token::Punctuation(ref p) if p == "#" || p == "##" => Token::NonReplacable(Box::new(t)),
+              t => t,
+            }))
+          };
+
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
@@ -678,7 +686,7 @@ impl MacroSet {
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-                tokens.extend(arg);
+                extend_with_arg(&mut tokens, arg);
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
@@ -686,10 +694,10 @@ impl MacroSet {
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-                tokens.extend(arg);
+                extend_with_arg(&mut tokens, arg);
               }
             },
-            _ => tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?),
+            _ => extend_with_arg(&mut tokens, self.expand_macro_body(non_replaced_names.clone(), &arg)?),
           }
         },
         token => tokens.push(token),
-- 
2.43.0


From 985c32e272da0080895e64e47800b59bd331e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 06/73] fix: do not macro-expand the operands of an unevaluated
 ##

---
 src/macro_set/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 2ef8106..da160f4 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -745,6 +745,17 @@ impl MacroSet {
       }
     }
 
+    // The operands of a `##` which cannot be evaluated yet must not be macro-expanded.
+    for i in 0..tokens.len() {
+      if matches!(tokens[i], Token::Punctuation(Punctuation { punctuation: "##" })) {
+        for operand in [i.checked_sub(1), i.checked_add(1)].into_iter().flatten() {
+          if let Some(token @ Token::Identifier(_)) = tokens.get_mut(operand) {
+            *token = Token::NonReplacable(Box::new(mem::replace(token, Token::Placemarker)));
+          }
+        }
+      }
+    }
+
     Ok(tokens)
   }
 
-- 
2.43.0


From f25b88906403235d111fb260b5322cf999d87f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 07/73] fix: rescan only the unfinished end of an expansion
 together with the following tokens

---
 src/macro_set/mod.rs | 131 ++++++++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 46 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index da160f4..d8a0fe7 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -3,7 +3,7 @@ use std::{
   collections::{HashMap, HashSet},
   error::Error,
   fmt,
-  iter::IntoIterator,
+  iter::{self, IntoIterator},
   mem,
 };
 
@@ -389,10 +389,10 @@ fn detokenize<'t>(arg_names: &[Token<'t>], tokens: Vec<Token<'t>>) -> Result<Vec
 }
 
 enum CollectArgsError {
-  /// Open parenthesis not found.
-  MissingOpenParenthesis(char),
-  /// Unclosed parenthesis.
-  UnclosedParenthesis(char),
+  /// The next token is not an open parenthesis.
+  MissingOpenParenthesis,
+  /// There are no more tokens before the closing parenthesis.
+  Incomplete,
 }
 
 #[derive(Debug, Clone, PartialEq)]
@@ -429,51 +429,83 @@ impl MacroSet {
     body.iter().any(|t| *t == Token::VarArgs)
   }
 
-  fn expand_macro_body<'s, 't>(
+  /// Expand the remaining tokens after a macro body, if no other tokens are following.
+  fn expand_pending<'s, 't>(
     &'s self,
     non_replaced_names: HashSet<&str>,
-    body: &[Token<'t>],
+    (mut tokens, mut pending): (Vec<Token<'t>>, Vec<Token<'t>>),
   ) -> Result<Vec<Token<'t>>, ExpansionError>
+  where
+    's: 't,
+  {
+    while !pending.is_empty() {
+      // There is nothing left to complete the function-like macro call.
+      tokens.push(pending.remove(0));
+
+      let (expanded_tokens, still_pending) = self.expand_macro_body(non_replaced_names.clone(), pending)?;
+      tokens.extend(expanded_tokens);
+      pending = still_pending;
+    }
+
+    Ok(tokens)
+  }
+
+  /// Expand a macro body.
+  ///
+  /// Returns the expanded tokens and the trailing tokens which could be the start of
+  /// a function-like macro call which is completed by the tokens following the body.
+  fn expand_macro_body<'s, 't>(
+    &'s self,
+    non_replaced_names: HashSet<&str>,
+    body: Vec<Token<'t>>,
+  ) -> Result<(Vec<Token<'t>>, Vec<Token<'t>>), ExpansionError>
   where
     's: 't,
   {
     let mut tokens = vec![];
-    let mut it = body.iter().cloned().peekable();
+    let mut it = body.into_iter();
 
     while let Some(token) = it.next() {
       match token {
         Token::Identifier(ref id) => {
           if non_replaced_names.contains(id.id.as_ref()) {
             tokens.push(Token::NonReplacable(Box::new(token)));
-          } else {
+          } else if let Some((arg_names, body)) = self.fn_macros.get(id.id.as_ref()) {
             // Treat as function-like macro call if immediately followed by `(`.
-            if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "(" })) {
-              if let Some((arg_names, body)) = self.fn_macros.get(id.id.as_ref()) {
-                if let Ok(args) = self.collect_args(&mut it) {
-                  let arg_names = tokenize_arg_names(arg_names)?;
-                  let body = tokenize(&arg_names, body);
-                  let expanded_tokens = self.expand_fn_macro_body(
-                    non_replaced_names.clone(),
-                    id.id.as_ref(),
-                    &arg_names,
-                    Some(&args),
-                    &body,
-                  )?;
-                  tokens.extend(expanded_tokens);
-                  tokens.extend(it);
-                  return self.expand_macro_body(non_replaced_names, &tokens)
-                }
-              }
-            }
-
-            // If it's not a macro call, check if it is a variable-like macro.
-            if let Some(body) = self.var_macros.get(id.id.as_ref()) {
-              let body = tokenize(&[], body);
-              tokens.extend(self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?);
-              tokens.extend(it);
-              return self.expand_macro_body(non_replaced_names, &tokens)
+            match self.collect_args(&mut it) {
+              Ok(args) => {
+                let arg_names = tokenize_arg_names(arg_names)?;
+                let body = tokenize(&arg_names, body);
+                let (expanded_tokens, pending) = self.expand_fn_macro_body(
+                  non_replaced_names.clone(),
+                  id.id.as_ref(),
+                  &arg_names,
+                  Some(&args),
+                  &body,
+                )?;
+                tokens.extend(expanded_tokens);
+                it = pending.into_iter().chain(it).collect::<Vec<_>>().into_iter();
+              },
+              Err(CollectArgsError::MissingOpenParenthesis) => tokens.push(token),
+              Err(CollectArgsError::Incomplete) => {
+                // None of the names which are not replaced here may be replaced later.
+                let pending = it.map(|t| match t {
+                  Token::Identifier(ref id) if non_replaced_names.contains(id.id.as_ref()) => {
+                    Token::NonReplacable(Box::new(t))
+                  },
+                  t => t,
+                });
+
+                return Ok((tokens, iter::once(token.clone()).chain(pending).collect()))
+              },
             }
-
+          } else if let Some(body) = self.var_macros.get(id.id.as_ref()) {
+            let body = tokenize(&[], body);
+            let (expanded_tokens, pending) =
+              self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?;
+            tokens.extend(expanded_tokens);
+            it = pending.into_iter().chain(it).collect::<Vec<_>>().into_iter();
+          } else {
             tokens.push(token)
           }
         },
@@ -481,7 +513,7 @@ impl MacroSet {
       }
     }
 
-    Ok(tokens)
+    Ok((tokens, vec![]))
   }
 
   fn expand_var_macro_body<'s, 't, 'n>(
@@ -489,7 +521,7 @@ impl MacroSet {
     mut non_replaced_names: HashSet<&'n str>,
     name: &'n str,
     body: &[Token<'t>],
-  ) -> Result<Vec<Token<'t>>, ExpansionError>
+  ) -> Result<(Vec<Token<'t>>, Vec<Token<'t>>), ExpansionError>
   where
     's: 't,
   {
@@ -503,7 +535,7 @@ impl MacroSet {
 
     non_replaced_names.insert(name);
 
-    self.expand_macro_body(non_replaced_names, &body)
+    self.expand_macro_body(non_replaced_names, body)
   }
 
   fn expand_fn_macro_body<'s, 't, 'n>(
@@ -513,7 +545,7 @@ impl MacroSet {
     arg_names: &[Token<'t>],
     args: Option<&[Vec<Token<'t>>]>,
     body: &[Token<'t>],
-  ) -> Result<Vec<Token<'t>>, ExpansionError>
+  ) -> Result<(Vec<Token<'t>>, Vec<Token<'t>>), ExpansionError>
   where
     's: 't,
   {
@@ -579,7 +611,7 @@ impl MacroSet {
 
     non_replaced_names.insert(name);
 
-    self.expand_macro_body(non_replaced_names, &body)
+    self.expand_macro_body(non_replaced_names, body)
   }
 
   fn collect_args<'s, 't, I>(&'s self, it: &mut I) -> Result<Vec<Vec<Token<'t>>>, CollectArgsError>
@@ -595,7 +627,8 @@ impl MacroSet {
 
     match it2.next() {
       Some(Token::Punctuation(p)) if p == "(" => (),
-      _ => return Err(CollectArgsError::MissingOpenParenthesis('(')),
+      Some(_) => return Err(CollectArgsError::MissingOpenParenthesis),
+      None => return Err(CollectArgsError::Incomplete),
     }
 
     while let Some(token) = it2.next() {
@@ -628,7 +661,7 @@ impl MacroSet {
       }
     }
 
-    Err(CollectArgsError::UnclosedParenthesis('('))
+    Err(CollectArgsError::Incomplete)
   }
 
   fn expand_arguments<'s, 't>(
@@ -697,7 +730,10 @@ impl MacroSet {
                 extend_with_arg(&mut tokens, arg);
               }
             },
-            _ => extend_with_arg(&mut tokens, self.expand_macro_body(non_replaced_names.clone(), &arg)?),
+            _ => {
+              let arg = self.expand_macro_body(non_replaced_names.clone(), arg)?;
+              extend_with_arg(&mut tokens, self.expand_pending(non_replaced_names.clone(), arg)?);
+            },
           }
         },
         token => tokens.push(token),
@@ -796,7 +832,8 @@ impl MacroSet {
   {
     let body = self.var_macros.get(name).ok_or(ExpansionError::MacroNotFound)?;
     let body = tokenize(&[], body);
-    let tokens = self.expand_var_macro_body(HashSet::new(), name, &body)?;
+    let expansion = self.expand_var_macro_body(HashSet::new(), name, &body)?;
+    let tokens = self.expand_pending(HashSet::new(), expansion)?;
     detokenize(&[], tokens)
   }
 
@@ -853,7 +890,8 @@ impl MacroSet {
 
     let arg_names = tokenize_arg_names(arg_names)?;
     let body = tokenize(&arg_names, body);
-    let tokens = self.expand_fn_macro_body(HashSet::new(), name, &arg_names, None, &body)?;
+    let expansion = self.expand_fn_macro_body(HashSet::new(), name, &arg_names, None, &body)?;
+    let tokens = self.expand_pending(HashSet::new(), expansion)?;
 
     let tokens = detokenize(&arg_names, tokens)?;
     let arg_names = detokenize(&[], arg_names)?;
@@ -876,7 +914,8 @@ impl MacroSet {
     T: AsRef<str> + 't,
   {
     let body = tokenize(&[], body);
-    let tokens: Vec<Token<'t>> = self.expand_var_macro_body(HashSet::new(), "", &body)?;
+    let expansion = self.expand_var_macro_body(HashSet::new(), "", &body)?;
+    let tokens: Vec<Token<'t>> = self.expand_pending(HashSet::new(), expansion)?;
     detokenize(&[], tokens)
   }
 }
-- 
2.43.0


From b1c299a7d9637f053c49f39fea51c4080eaa802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 08/73] fix: ignore comments between the parts of a macro call
 and around # and ##

---
 src/macro_set/mod.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index d8a0fe7..1bb77f6 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -234,7 +234,9 @@ impl<'t> Token<'t> {
   pub fn detokenize(self, arg_names: &[Token<'t>]) -> Result<Option<MacroToken<'t>>, ExpansionError> {
     Ok(Some(match self {
       Self::MacroArg(arg_index) => MacroToken::Arg(MacroArg { index: arg_index }),
-      Self::VarArgs => MacroToken::Arg(MacroArg { index: arg_names.len() - 1 }),
+      Self::VarArgs => MacroToken::Arg(MacroArg {
+        index: arg_names.iter().filter(|t| !matches!(t, Token::Comment(_))).count() - 1,
+      }),
       Self::Identifier(id) => MacroToken::Identifier(id),
       Self::IdentifierContinue(id_cont) => MacroToken::IdentifierContinue(id_cont),
       Self::Literal(lit, _) => MacroToken::Lit(lit),
@@ -562,7 +564,9 @@ impl MacroSet {
       if let Some(args) = args {
         if arg_names.len() != args.len()
           // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+          && !(arg_names.is_empty()
+            && args.len() <= 1
+            && args.iter().flatten().all(|t| matches!(t, Token::Comment(_))))
         {
           return Err(ExpansionError::FnMacroArgumentError {
             name: name.to_owned(),
@@ -600,6 +604,8 @@ impl MacroSet {
       }
     }
 
+    let body = &Self::remove_operand_comments(body);
+
     let body = if let Some(args) = args {
       self.expand_arguments(non_replaced_names.clone(), &arg_names, args, body)?
     } else {
@@ -625,7 +631,7 @@ impl MacroSet {
 
     let mut it2 = it.clone();
 
-    match it2.next() {
+    match it2.find(|t| !matches!(t, Token::Comment(_))) {
       Some(Token::Punctuation(p)) if p == "(" => (),
       Some(_) => return Err(CollectArgsError::MissingOpenParenthesis),
       None => return Err(CollectArgsError::Incomplete),
@@ -716,6 +722,7 @@ impl MacroSet {
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
               // Operands of `##` are not macro-expanded.
+              let arg: Vec<_> = arg.into_iter().filter(|t| !matches!(t, Token::Comment(_))).collect();
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
@@ -724,6 +731,7 @@ impl MacroSet {
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
               // Operands of `##` are not macro-expanded.
+              let arg: Vec<_> = arg.into_iter().filter(|t| !matches!(t, Token::Comment(_))).collect();
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
@@ -743,6 +751,27 @@ impl MacroSet {
     Ok(tokens)
   }
 
+  /// Remove comments between `#` and `##` operators and their operands.
+  fn remove_operand_comments<'t>(body: &[Token<'t>]) -> Vec<Token<'t>> {
+    let mut tokens: Vec<Token<'t>> = vec![];
+
+    for token in body {
+      match token {
+        Token::Comment(_) if matches!(tokens.last(), Some(Token::Punctuation(p)) if p == "#" || p == "##") => continue,
+        Token::Punctuation(p) if p == "##" => {
+          while let Some(Token::Comment(_)) = tokens.last() {
+            tokens.pop();
+          }
+        },
+        _ => (),
+      }
+
+      tokens.push(token.clone());
+    }
+
+    tokens
+  }
+
   fn expand_concat(tokens: Vec<Token<'_>>) -> Result<Vec<Token<'_>>, ExpansionError> {
     let mut it = tokens.into_iter().peekable();
     let mut tokens = vec![];
-- 
2.43.0


From 5224b9a08cf605bac3aaf67fae9f240698c01cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 09/73] fix: evaluate ## between a macro argument and an empty
 argument

---
 src/macro_set/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 1bb77f6..8428a18 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -779,8 +779,10 @@ impl MacroSet {
     while let Some(token) = it.next() {
       match token {
         Token::Punctuation(Punctuation { punctuation: "##" })
-          if !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
-            && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
+          if matches!(tokens.last(), Some(Token::Placemarker))
+            || matches!(it.peek(), Some(Token::Placemarker))
+            || !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
+              && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
         {
           macro_rules! until_no_whitespace {
             ($expr:expr, $error:ident) => {{
-- 
2.43.0


From 4208ce6af14eb1d27b3034e625392d5560dfb026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 10/73] fix: stringify forwarded variable arguments instead of
 the name __VA_ARGS__

---
 src/macro_set/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 8428a18..54d5b09 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -209,14 +209,7 @@ impl<'t> Token<'t> {
     use StringifyAction::*;
 
     match self {
-      Self::MacroArg(_) => Keep,
-      Self::VarArgs => {
-        if nested {
-          Keep
-        } else {
-          Append("__VA_ARGS__")
-        }
-      },
+      Self::MacroArg(_) | Self::VarArgs => Keep,
       Self::Identifier(id) => match id.id.as_ref() {
         "__LINE__" | "__FILE__" if nested => Keep,
         t => Append(t),
-- 
2.43.0


From b0af275b5693483b7df345913753fd05771ada95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 11/73] fix: keep the order of arguments and text in a
 stringified argument

---
 src/macro_set/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 54d5b09..25c9a8e 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -337,26 +337,38 @@ impl<'t> Token<'t> {
   }
 }
 
+fn string_token<'t>(s: String) -> Token<'t> {
+  let spelling = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
+  Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(spelling))
+}
+
 fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   let it = tokens.into_iter().peekable();
   let mut tokens = vec![];
 
   let mut space_before_next = false;
 
-  let mut current_string = None;
+  let mut current_string: Option<String> = None;
 
   for token in it {
     let token = match token.stringify(nested) {
       StringifyAction::Keep => {
+        if space_before_next {
+          current_string.get_or_insert_with(String::new).push(' ');
+        }
+
+        // Keep the order of arguments and the text between them.
+        tokens.extend(current_string.take().map(string_token));
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
         tokens.push(token);
+        space_before_next = true;
         continue
       },
       StringifyAction::Skip => continue,
       StringifyAction::Append(s) => s,
     };
 
-    let s = current_string.get_or_insert(String::new());
+    let s = current_string.get_or_insert_with(String::new);
 
     if token != ")" && token != "]" && token != "}" && token != "." && token != "," && token != "(" && space_before_next
     {
@@ -368,12 +380,10 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
     s.push_str(token)
   }
 
-  tokens.extend(current_string.take().map(|s| {
-    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.clone().into_bytes()))), Cow::Owned(format!("{s:?}")))
-  }));
+  tokens.extend(current_string.take().map(string_token));
 
   if tokens.is_empty() {
-    return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
+    return vec![string_token(String::new())]
   }
 
   tokens
-- 
2.43.0


From 362b348e02310e3108e72a57291ff600358d0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 12/73] fix: report an invalid prefixed literal instead of
 panicking

---
 src/macro_set/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 25c9a8e..2254157 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -284,10 +284,8 @@ impl<'t> Token<'t> {
             if matches!(lhs.id.as_ref(), "u8" | "u" | "U" | "L") =>
           {
             lhs.id.to_mut().push_str(rhs.as_ref());
-            return Ok(Self::Literal(
-              Lit::try_from(lhs.id.as_ref()).unwrap().into_static(),
-              Cow::Owned(lhs.id.into_owned()),
-            ))
+            let literal = Lit::try_from(lhs.id.as_ref()).map_err(|_| ExpansionError::InvalidConcat)?.into_static();
+            return Ok(Self::Literal(literal, Cow::Owned(lhs.id.into_owned())))
           },
           // Strings cannot be prefixed with anything else.
           Lit::String(_) | Lit::Char(_) => (),
-- 
2.43.0


From 40819481313ac2e6899cf344219af5a21c27df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 13/73] fix: reject # without a parameter when expanding a
 function-like macro symbolically

---
 src/macro_set/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 2254157..39f0a7a 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -607,6 +607,15 @@ impl MacroSet {
 
     let body = &Self::remove_operand_comments(body);
 
+    // `#` must be followed by a parameter.
+    for (i, token) in body.iter().enumerate() {
+      if matches!(token, Token::Punctuation(p) if p == "#")
+        && !matches!(body.get(i + 1), Some(Token::MacroArg(_) | Token::VarArgs))
+      {
+        return Err(ExpansionError::StringifyNonArgument)
+      }
+    }
+
     let body = if let Some(args) = args {
       self.expand_arguments(non_replaced_names.clone(), &arg_names, args, body)?
     } else {
@@ -686,12 +695,6 @@ impl MacroSet {
 
     while let Some(token) = it.next() {
       match token {
-        Token::Punctuation(ref p) if p == "#" => match it.peek() {
-          Some(Token::MacroArg(_) | Token::VarArgs) => {
-            tokens.push(token.clone());
-          },
-          _ => return Err(ExpansionError::StringifyNonArgument),
-        },
         Token::MacroArg(_) | Token::VarArgs => {
           let arg = if let Token::MacroArg(arg_index) = token {
             args[arg_index].clone()
-- 
2.43.0


From eef9fde201696ece97ec978da8207f1384da7b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 14/73] fix: read all the digits of a hexadecimal escape
 sequence

---
 src/ast/literal.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index dbbfbba..0424145 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -8,7 +8,7 @@ use nom::{
     is_hex_digit, is_oct_digit,
   },
   combinator::{all_consuming, map, map_opt, value, verify},
-  multi::fold_many_m_n,
+  multi::{fold_many1, fold_many_m_n},
   sequence::preceded,
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, Slice,
 };
@@ -157,12 +157,14 @@ where
     ),
     preceded(
       tag_no_case("x"),
-      fold_many_m_n(
-        2,
-        2,
-        map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
-        || 0,
-        |acc, n| acc * 16 + n,
+      // There is no limit to the number of digits, only to the value.
+      map_opt(
+        fold_many1(
+          map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
+          || Some(0u32),
+          |acc, n| acc?.checked_mul(16)?.checked_add(n),
+        ),
+        |n| n,
       ),
     ),
   ))(input)
-- 
2.43.0


From 1cd180363184154b3ea033d3bfa045c55eb63150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 15/73] fix: encode universal characters in string literals and
 reject escapes that do not fit a code unit

---
 src/ast/literal.rs        | 12 +++++++++++-
 src/ast/literal/string.rs | 19 ++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index 0424145..b776b97 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -200,6 +200,16 @@ where
   ))(input)
 }
 
+/// Parse an escape sequence which denotes a single code unit, e.g. `\n` or `\xff`.
+pub(crate) fn escaped_code_unit<I>(input: I) -> IResult<I, u32>
+where
+  I: Debug + InputTake + InputLength + Slice<RangeFrom<usize>> + InputIter + Clone + Compare<&'static str>,
+  <I as InputIter>::Item: AsChar + Copy,
+  &'static str: FindToken<<I as InputIter>::Item>,
+{
+  preceded(char('\\'), alt((map(simple_escape_sequence, u32::from), numeric_escape_sequence)))(input)
+}
+
 /// Parse an escaped character.
 pub(crate) fn escaped_char<I>(input: I) -> IResult<I, u32>
 where
@@ -207,7 +217,7 @@ where
   <I as InputIter>::Item: AsChar + Copy,
   &'static str: FindToken<<I as InputIter>::Item>,
 {
-  preceded(char('\\'), alt((map(simple_escape_sequence, u32::from), numeric_escape_sequence, universal_char)))(input)
+  alt((escaped_code_unit, preceded(char('\\'), universal_char)))(input)
 }
 
 /// Parse an unescaped character.
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index d35aa59..f42adfb 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -28,7 +28,7 @@ use crate::ast::{
   Identifier,
 };
 
-use super::escaped_char;
+use super::{escaped_char, escaped_code_unit, universal_char};
 
 /// A string literal.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -72,15 +72,11 @@ impl<'t> LitString<'t> {
       char('\"'),
       fold_many0(
         alt((
-          map_opt(escaped_char, |c| {
-            if let Ok(c) = u8::try_from(c) {
-              Some(Cow::Owned(vec![c]))
-            } else if let Ok(c) = char::try_from(c) {
-              let mut s = [0; 4];
-              Some(Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec()))
-            } else {
-              None
-            }
+          map_opt(escaped_code_unit, |c| Some(Cow::Owned(vec![u8::try_from(c).ok()?]))),
+          map_opt(preceded(char('\\'), universal_char), |c| {
+            let c = char::try_from(c).ok()?;
+            let mut s = [0; 4];
+            Some(Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec()))
           }),
           map(is_not("\\\"\n"), |b: &str| Cow::Borrowed(b.as_bytes())),
         )),
@@ -127,7 +123,8 @@ impl<'t> LitString<'t> {
         char('\"'),
         fold_many0(
           alt((
-            map_opt(escaped_char, |c| {
+            map_opt(escaped_code_unit, |c| Some(Part::Vec(vec![u16::try_from(c).ok()?]))),
+            map_opt(preceded(char('\\'), universal_char), |c| {
               if let Ok(c) = u16::try_from(c) {
                 Some(Part::Vec(vec![c]))
               } else if let Ok(c) = char::try_from(c) {
-- 
2.43.0


From 0a4194cf1fa9bc1430bd42963d010ea654aa94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 16/73] fix: decode an ordinary string concatenated to a wide
 string

---
 src/ast/literal/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index f42adfb..7c24d2f 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -316,7 +316,10 @@ impl<'t> LitString<'t> {
               opt(id("L")),
               map_opt(take_one, |token| match token {
                 MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Owned(bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>()))
+                  Some(Cow::Owned(match str::from_utf8(bytes.as_ref()) {
+                    Ok(s) => s.chars().map(u32::from).collect::<Vec<_>>(),
+                    Err(_) => bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>(),
+                  }))
                 },
                 _ => None,
               }),
-- 
2.43.0


From 431f2acefdbf49004c9aca5d1717fda8cce526c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 17/73] fix: keep a stringified period apart from a number or
 period it would merge with

---
 src/macro_set/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 39f0a7a..3852583 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -347,6 +347,7 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   let mut space_before_next = false;
 
   let mut current_string: Option<String> = None;
+  let mut after_number = false;
 
   for token in it {
     let token = match token.stringify(nested) {
@@ -368,12 +369,21 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
 
     let s = current_string.get_or_insert_with(String::new);
 
-    if token != ")" && token != "]" && token != "}" && token != "." && token != "," && token != "(" && space_before_next
+    // Without a space, these would be read as a single token.
+    let merges = if s.ends_with('.') {
+      token.starts_with(|c: char| c == '.' || c.is_ascii_digit())
+    } else {
+      after_number && token == "."
+    };
+
+    if (token != ")" && token != "]" && token != "}" && token != "." && token != "," && token != "(" && space_before_next)
+      || merges
     {
       s.push(' ');
     }
 
     space_before_next = !(token == "(" || token == "[" || token == "{" || token == ".");
+    after_number = token.trim_start_matches('.').starts_with(|c: char| c.is_ascii_digit());
 
     s.push_str(token)
   }
-- 
2.43.0


From 4b8b083f0290c86395cec517701d1aa386ebd187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 18/73] fix: report ## at the start or end of a function-like
 macro that is expanded symbolically

---
 src/macro_set/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 3852583..49d8e59 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -793,8 +793,8 @@ impl MacroSet {
     while let Some(token) = it.next() {
       match token {
         Token::Punctuation(Punctuation { punctuation: "##" })
-          if matches!(tokens.last(), Some(Token::Placemarker))
-            || matches!(it.peek(), Some(Token::Placemarker))
+          if matches!(tokens.last(), Some(Token::Placemarker) | None)
+            || matches!(it.peek(), Some(Token::Placemarker) | None)
             || !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
               && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
         {
-- 
2.43.0


From c1ec99a351e0f769093dfecabbe41c59cfb9932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 19/73] fix: paste a period or exponent sign onto a
 preprocessing number

---
 src/macro_set/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 49d8e59..441e039 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -317,6 +317,16 @@ impl<'t> Token<'t> {
         lhs.to_mut().push_str(rhs.as_ref());
         lhs.into_owned()
       },
+      (
+        Self::Literal(Lit::Int(_) | Lit::Float(_), mut lhs)
+        | Self::IdentifierContinue(IdentifierContinue { id_cont: mut lhs })
+        | Self::Plain(mut lhs),
+        Self::Punctuation(rhs),
+      ) if rhs == "." || (rhs == "+" || rhs == "-") && lhs.ends_with(['e', 'E', 'p', 'P']) => {
+        // The result is a preprocessing number.
+        lhs.to_mut().push_str(rhs.as_str());
+        lhs.into_owned()
+      },
       (Self::Punctuation(_lhs), _) => return Err(ExpansionError::InvalidConcat),
       (_, Self::Punctuation(_rhs)) => return Err(ExpansionError::InvalidConcat),
       (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_), _)
-- 
2.43.0


From 7c09cce6a961e8330cdb6bb046ef3778ac4d94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 20/73] fix: keep ## next to an unevaluated stringification in
 place

---
 src/macro_set/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 441e039..d9f7321 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -806,7 +806,10 @@ impl MacroSet {
           if matches!(tokens.last(), Some(Token::Placemarker) | None)
             || matches!(it.peek(), Some(Token::Placemarker) | None)
             || !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
-              && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
+              && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs))
+              // An unevaluated stringification.
+              && !(it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "#" }))
+                && matches!(it.clone().nth(1), Some(Token::MacroArg(_) | Token::VarArgs))) =>
         {
           macro_rules! until_no_whitespace {
             ($expr:expr, $error:ident) => {{
-- 
2.43.0


From 63d10b6d38d55c903054613878a9e053ef1300d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 21/73] fix: concatenate adjacent strings with different
 prefixes like C

---
 src/ast/expr.rs           | 26 ++++++++++++++------------
 src/ast/literal/string.rs | 33 +++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f7f5d2..7e0713d 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -1,4 +1,4 @@
-use std::{borrow::Cow, fmt::Debug};
+use std::fmt::Debug;
 
 use nom::{
   branch::alt,
@@ -455,24 +455,26 @@ impl<'t> Expr<'t> {
       Self::Stringify(stringify) => stringify.finish(ctx),
       Self::ConcatString(names) => {
         let mut new_names = vec![];
-        let mut current_name: Option<Vec<u8>> = None;
+        let mut current_name: Option<LitString<'t>> = None;
 
         for name in &mut *names {
           name.finish(ctx)?;
 
           match name {
             Self::Literal(Lit::String(lit)) => {
-              if let Some(lit_bytes) = lit.as_bytes() {
-                if let Some(ref mut current_name) = current_name {
-                  current_name.extend_from_slice(lit_bytes);
-                } else {
-                  current_name = Some(lit_bytes.to_vec());
-                }
-                continue
-              } else {
+              if matches!(lit, LitString::Wide(_)) {
                 // FIXME: Cannot concatenate wide strings due to unknown size of `wchar_t`.
                 return Err(crate::CodegenError::UnsupportedExpression("concatenation of wide strings".to_owned()))
               }
+
+              if let Some(ref mut current_name) = current_name {
+                current_name.concat(lit.clone()).ok_or_else(|| {
+                  crate::CodegenError::UnsupportedExpression("concatenation of different strings".to_owned())
+                })?;
+              } else {
+                current_name = Some(lit.clone());
+              }
+              continue
             },
             Self::Var(Var { name }) => {
               match name {
@@ -493,14 +495,14 @@ impl<'t> Expr<'t> {
           }
 
           if let Some(current_name) = current_name.take() {
-            new_names.push(Self::Literal(Lit::String(LitString::Ordinary(Cow::Owned(current_name)))));
+            new_names.push(Self::Literal(Lit::String(current_name)));
           }
 
           new_names.push(name.clone());
         }
 
         if let Some(current_name) = current_name.take() {
-          new_names.push(Self::Literal(Lit::String(LitString::Ordinary(Cow::Owned(current_name)))));
+          new_names.push(Self::Literal(Lit::String(current_name)));
         }
 
         if new_names.len() == 1 {
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 7c24d2f..aa47d99 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -508,15 +508,32 @@ impl<'t> LitString<'t> {
     }
   }
 
-  /// Get the raw string representation as bytes.
-  pub(crate) fn as_bytes(&self) -> Option<&[u8]> {
-    match self {
-      Self::Ordinary(bytes) => Some(bytes.as_ref()),
-      Self::Utf8(s) => Some(s.as_bytes()),
-      Self::Utf16(s) => Some(s.as_bytes()),
-      Self::Utf32(s) => Some(s.as_bytes()),
-      Self::Wide(_) => None,
+  /// Append an adjacent string literal. An ordinary string takes on the prefix of the other string,
+  /// strings with different prefixes cannot be concatenated.
+  pub(crate) fn concat(&mut self, other: Self) -> Option<()> {
+    if matches!(self, Self::Ordinary(_)) && !matches!(other, Self::Ordinary(_)) {
+      let mut s = match other {
+        Self::Utf8(_) => Self::Utf8(Cow::Borrowed("")),
+        Self::Utf16(_) => Self::Utf16(Cow::Borrowed("")),
+        Self::Utf32(_) => Self::Utf32(Cow::Borrowed("")),
+        Self::Ordinary(_) | Self::Wide(_) => return None,
+      };
+      s.concat(self.clone())?;
+      *self = s;
     }
+
+    match (self, other) {
+      (Self::Ordinary(bytes), Self::Ordinary(other)) => bytes.to_mut().extend_from_slice(other.as_ref()),
+      (Self::Utf8(s) | Self::Utf16(s) | Self::Utf32(s), Self::Ordinary(other)) => {
+        s.to_mut().push_str(str::from_utf8(other.as_ref()).ok()?)
+      },
+      (Self::Utf8(s), Self::Utf8(other))
+      | (Self::Utf16(s), Self::Utf16(other))
+      | (Self::Utf32(s), Self::Utf32(other)) => s.to_mut().push_str(other.as_ref()),
+      _ => return None,
+    }
+
+    Some(())
   }
 
   /// Convert the raw string representation to a UTF-8 string, if possible.
-- 
2.43.0


From ed12f1da82c053fee198864eadfe206dcec08fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 22/73] fix: emit string literals inside concat! as literals

---
 src/ast/expr.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 7e0713d..7926a52 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -505,6 +505,17 @@ impl<'t> Expr<'t> {
           new_names.push(Self::Literal(Lit::String(current_name)));
         }
 
+        if new_names.len() > 1
+          && new_names.iter().any(|name| match name {
+            // The generated `concat!` can only contain ordinary, valid UTF-8 strings.
+            Self::Literal(Lit::String(LitString::Ordinary(s))) => std::str::from_utf8(s).is_err(),
+            Self::Literal(_) => true,
+            _ => false,
+          })
+        {
+          return Err(crate::CodegenError::UnsupportedExpression("concatenation of prefixed strings".to_owned()))
+        }
+
         if new_names.len() == 1 {
           *self = new_names.remove(0);
           self.finish(ctx)
@@ -678,6 +689,11 @@ impl<'t> Expr<'t> {
               quote! { #(#trait_prefix::)*file!() }
             },
             Self::Stringify(stringify) => stringify.to_token_stream_inner(ctx),
+            // `concat!` only accepts literals.
+            Self::Literal(Lit::String(s)) => {
+              let s = s.as_str().map(proc_macro2::Literal::string);
+              quote! { #s }
+            },
             e => e.to_token_stream(ctx),
           })
           .collect::<Vec<_>>();
-- 
2.43.0


From 3dbcc558874b5284978e73d4e7e090274a5c7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 23/73] fix: concatenate wide strings that are not directly
 adjacent

---
 src/ast/expr.rs           | 5 -----
 src/ast/literal/string.rs | 8 +++++++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 7926a52..f0389f3 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -462,11 +462,6 @@ impl<'t> Expr<'t> {
 
           match name {
             Self::Literal(Lit::String(lit)) => {
-              if matches!(lit, LitString::Wide(_)) {
-                // FIXME: Cannot concatenate wide strings due to unknown size of `wchar_t`.
-                return Err(crate::CodegenError::UnsupportedExpression("concatenation of wide strings".to_owned()))
-              }
-
               if let Some(ref mut current_name) = current_name {
                 current_name.concat(lit.clone()).ok_or_else(|| {
                   crate::CodegenError::UnsupportedExpression("concatenation of different strings".to_owned())
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index aa47d99..258e221 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -516,7 +516,8 @@ impl<'t> LitString<'t> {
         Self::Utf8(_) => Self::Utf8(Cow::Borrowed("")),
         Self::Utf16(_) => Self::Utf16(Cow::Borrowed("")),
         Self::Utf32(_) => Self::Utf32(Cow::Borrowed("")),
-        Self::Ordinary(_) | Self::Wide(_) => return None,
+        Self::Wide(_) => Self::Wide(vec![]),
+        Self::Ordinary(_) => return None,
       };
       s.concat(self.clone())?;
       *self = s;
@@ -530,6 +531,11 @@ impl<'t> LitString<'t> {
       (Self::Utf8(s), Self::Utf8(other))
       | (Self::Utf16(s), Self::Utf16(other))
       | (Self::Utf32(s), Self::Utf32(other)) => s.to_mut().push_str(other.as_ref()),
+      (Self::Wide(words), Self::Wide(other)) => words.extend(other),
+      (Self::Wide(words), Self::Ordinary(other)) => match str::from_utf8(other.as_ref()) {
+        Ok(s) => words.extend(s.chars().map(u32::from)),
+        Err(_) => words.extend(other.iter().map(|b| u32::from(*b))),
+      },
       _ => return None,
     }
 
-- 
2.43.0


From f3f227e271ae679c55affc46677c6f86c2d966b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 24/73] fix: negate operands that are not bool by comparing
 with zero

The operand's type was never seen, so '!~7' became '!!7' and '!(int)3' became
'!(3u8 as c_int)', which both are bitwise complements in Rust.
---
 src/ast/expr.rs       | 12 +++++++++++-
 src/ast/unary_expr.rs |  3 +--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index f0389f3..1144338 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -525,6 +525,16 @@ impl<'t> Expr<'t> {
       Self::Unary(op) => {
         let ty = op.finish(ctx)?;
 
+        // The result of `!` is of type `bool` unless it is calculated, in which case it is an integer literal.
+        let result_ty = if op.op == UnaryOp::Not {
+          match &*op.expr {
+            Self::Literal(Lit::Int(LitInt { suffix: None, .. }) | Lit::Float(_)) => None,
+            _ => Some(Type::BuiltIn(BuiltInType::Bool)),
+          }
+        } else {
+          ty.clone()
+        };
+
         match (op.op, &*op.expr) {
           (UnaryOp::Plus, expr @ Self::Literal(Lit::Int(_)) | expr @ Self::Literal(Lit::Float(_))) => {
             *self = expr.clone();
@@ -578,7 +588,7 @@ impl<'t> Expr<'t> {
           _ => (),
         }
 
-        Ok(ty)
+        Ok(result_ty)
       },
       Self::Binary(op) => {
         let ty = op.finish(ctx)?;
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 2e81c6c..00a94d1 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -71,7 +71,6 @@ impl<'t> UnaryExpr<'t> {
     let ty = self.expr.finish(ctx)?;
 
     match self.op {
-      UnaryOp::Not => Ok(Some(Type::BuiltIn(BuiltInType::Bool))),
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
         if ctx.is_variable_macro() {
-- 
2.43.0


From 0c756687b9210cb47a9032d4792ca85cd07ddb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 25/73] fix: convert a bool to int before using it as an
 operand of ~, - and +

---
 src/ast/unary_expr.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 00a94d1..e0fbd64 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -68,7 +68,14 @@ impl<'t> UnaryExpr<'t> {
   where
     C: CodegenContext,
   {
-    let ty = self.expr.finish(ctx)?;
+    let mut ty = self.expr.finish(ctx)?;
+
+    // In C, the result of a comparison is of type `int`, while in Rust, `!` means something else for `bool`.
+    if ty == Some(Type::BuiltIn(BuiltInType::Bool)) && matches!(self.op, UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Comp) {
+      let int = Type::BuiltIn(BuiltInType::Int);
+      self.expr = Box::new(Expr::Cast(Cast { ty: int.clone(), expr: self.expr.clone() }));
+      ty = Some(int);
+    }
 
     match self.op {
       UnaryOp::Deref => {
-- 
2.43.0


From 3d073ab670a8a7fa83c2b5b8c55e50f8ad61c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 26/73] fix: drop the unary plus operator, which Rust does not
 have

---
 src/ast/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 1144338..f36286b 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -536,7 +536,8 @@ impl<'t> Expr<'t> {
         };
 
         match (op.op, &*op.expr) {
-          (UnaryOp::Plus, expr @ Self::Literal(Lit::Int(_)) | expr @ Self::Literal(Lit::Float(_))) => {
+          // Rust does not have a unary `+` operator.
+          (UnaryOp::Plus, expr) => {
             *self = expr.clone();
           },
           (UnaryOp::Minus, Self::Literal(Lit::Int(LitInt { value: i, suffix }))) => {
-- 
2.43.0


From 90850567f2319f72fc1ca369b1b183d1eaf0b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 27/73] fix: parse a parenthesized argument before an operator
 as an operand

'(a) - (b) - (c)' was parsed as a cast of '-(b) - (c)' and then turned into
'a - (b - c)', and '(a) + 1' became '1u8 as a'.
---
 src/ast/expr.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index f36286b..1365a0d 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -2,7 +2,7 @@ use std::fmt::Debug;
 
 use nom::{
   branch::alt,
-  combinator::{map, map_res, value},
+  combinator::{map, map_opt, map_res, value},
   multi::{fold_many0, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
@@ -150,8 +150,18 @@ impl<'t> Expr<'t> {
 
   fn parse_term_prec2<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     alt((
-      map(pair(parenthesized(Type::parse), Self::parse_term_prec2), |(ty, term)| {
-        Self::Cast(Cast { ty, expr: Box::new(term) })
+      map_opt(pair(parenthesized(Type::parse), Self::parse_term_prec2), |(ty, term)| {
+        // An argument cannot be resolved as a type, so `(arg) - 1` is a binary operation rather than a cast.
+        if matches!(ty, Type::Identifier { name: IdentifierExpr::Arg(_) | IdentifierExpr::Concat(_), is_struct: false })
+          && matches!(
+            term,
+            Self::Unary(UnaryExpr { op: UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Deref | UnaryOp::AddrOf, .. })
+          )
+        {
+          return None
+        }
+
+        Some(Self::Cast(Cast { ty, expr: Box::new(term) }))
       }),
       map(
         pair(
-- 
2.43.0


From 0fe3f1f555c44a1ee999ee6059cce2b62ca0619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 28/73] fix: reject a constant division by zero instead of
 panicking

---
 src/ast/expr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 1365a0d..da726aa 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -618,6 +618,9 @@ impl<'t> Expr<'t> {
             *self = Self::Literal(Lit::Float(*lhs / *rhs));
             self.finish(ctx)
           },
+          (BinaryOp::Div | BinaryOp::Rem, Self::Literal(Lit::Int(_)), Self::Literal(Lit::Int(LitInt { value: 0, .. }))) => {
+            Err(crate::CodegenError::UnsupportedExpression("division by zero".to_owned()))
+          },
           (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
             *self = Self::Literal(Lit::Int(*lhs / *rhs));
             self.finish(ctx)
-- 
2.43.0


From 314c2bdacfbf897b8507852aad45afe0aa9062fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 29/73] fix: convert an integer literal to the type of the
 floating-point literal it meets

It was converted to f32, which lost digits, and not at all if it had a suffix.
---
 src/ast/binary_expr.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e307559..d41c729 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -223,20 +223,20 @@ impl<'t> BinaryExpr<'t> {
 
     // Cast mixed float and int expression.
     match (&*self.lhs, &*self.rhs) {
-      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(_))) => {
-        let f = if *lhs >= f32::MIN as i128 && *lhs <= f32::MAX as i128 {
-          LitFloat::Float(*lhs as f32)
-        } else {
-          LitFloat::Double(*lhs as f64)
+      (Expr::Literal(Lit::Int(LitInt { value: lhs, .. })), Expr::Literal(Lit::Float(rhs))) => {
+        let f = match rhs {
+          LitFloat::Float(_) => LitFloat::Float(*lhs as f32),
+          LitFloat::Double(_) => LitFloat::Double(*lhs as f64),
+          LitFloat::LongDouble(_) => LitFloat::LongDouble(*lhs as f64),
         };
         self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
         lhs_ty = self.lhs.finish(ctx)?;
       },
-      (Expr::Literal(Lit::Float(_)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
-        let f = if *rhs >= f32::MIN as i128 && *rhs <= f32::MAX as i128 {
-          LitFloat::Float(*rhs as f32)
-        } else {
-          LitFloat::Double(*rhs as f64)
+      (Expr::Literal(Lit::Float(lhs)), Expr::Literal(Lit::Int(LitInt { value: rhs, .. }))) => {
+        let f = match lhs {
+          LitFloat::Float(_) => LitFloat::Float(*rhs as f32),
+          LitFloat::Double(_) => LitFloat::Double(*rhs as f64),
+          LitFloat::LongDouble(_) => LitFloat::LongDouble(*rhs as f64),
         };
         self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
         rhs_ty = self.rhs.finish(ctx)?;
-- 
2.43.0


From 2b70421c29cae853dd7e5adf8b244eb1d688ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 30/73] fix: parenthesize everything ending with a cast to the
 left of < and <<

---
 src/ast/binary_expr.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index d41c729..b0025d1 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -299,9 +299,9 @@ impl<'t> BinaryExpr<'t> {
       (_, Associativity::Right) => (lhs_prec <= prec, rhs_prec < prec),
     };
 
-    // Ensure that a cast on the left side is quoted when shifting
-    // left to avoid ambiguous type parameter errors.
-    if matches!(&*self.lhs, Expr::Cast(..) | Expr::SizeOf(..)) && matches!(op, BinaryOp::Shl) {
+    // Ensure that a cast on the left side is quoted when shifting left
+    // or comparing to avoid ambiguous type parameter errors.
+    if ends_with_type(&self.lhs) && matches!(op, BinaryOp::Shl | BinaryOp::Lt) {
       lhs_parens = true;
     }
 
@@ -352,6 +352,15 @@ impl<'t> BinaryExpr<'t> {
   }
 }
 
+/// Check whether the last token generated for an expression may belong to a type.
+fn ends_with_type(expr: &Expr) -> bool {
+  match expr {
+    Expr::Cast(..) | Expr::SizeOf(..) => true,
+    Expr::Binary(expr) => ends_with_type(&expr.rhs),
+    _ => false,
+  }
+}
+
 #[cfg(test)]
 mod tests {
   use super::{
-- 
2.43.0


From ff8c77a05066e64cbfad3dd3de33a99bf744cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 31/73] fix: compare with zero instead of casting to bool

---
 src/ast/cast.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index cada6d2..82693a7 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, Expr, Lit, LitInt, Type};
+use super::{Associativity, BuiltInType, Expr, Lit, LitInt, Type};
 
 /// A cast expression.
 ///
@@ -29,7 +29,12 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
-    self.expr.finish(ctx)?;
+    if self.ty == Type::BuiltIn(BuiltInType::Bool) {
+      // Cannot cast anything other than `bool` to `bool`.
+      self.expr.finish_condition(ctx)?;
+    } else {
+      self.expr.finish(ctx)?;
+    }
     Ok(Some(self.ty.clone()))
   }
 
-- 
2.43.0


From becc065c7df1564674421a2655a0107963a6c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 32/73] fix: parenthesize blocks which are followed by an
 operator

At the start of a statement, '{ x += 1; x } + y' and 'if x { y } else { z } * 2'
are two statements each.
---
 src/ast/binary_expr.rs |  5 +++++
 src/ast/cast.rs        |  2 +-
 src/ast/expr.rs        | 10 ++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index b0025d1..100fcb2 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -305,6 +305,11 @@ impl<'t> BinaryExpr<'t> {
       lhs_parens = true;
     }
 
+    // Ensure that a block on the left side is not parsed as a statement.
+    if self.lhs.is_block() {
+      lhs_parens = true;
+    }
+
     match self.op {
       BinaryOp::Assign
       | BinaryOp::AddAssign
diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index 82693a7..f99424e 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -90,7 +90,7 @@ impl<'t> Cast<'t> {
             },
             _ => {
               let mut expr = expr.to_token_stream(ctx);
-              if expr_prec > prec {
+              if expr_prec > prec || self.expr.is_block() {
                 expr = quote! { (#expr) };
               }
               expr
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index da726aa..99885da 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -43,6 +43,16 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Whether the generated expression starts with a block, i.e. would be a statement on its own.
+  pub(crate) const fn is_block(&self) -> bool {
+    match self {
+      Self::Ternary(_) => true,
+      Self::Unary(expr) => matches!(expr.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
+      Self::Binary(expr) => expr.op.is_assignment(),
+      _ => false,
+    }
+  }
+
   /// Parse string concatenation, e.g. `arg "333"`.
   fn parse_concat_string<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let parse_var = map(IdentifierExpr::parse_concat_ident, |id| Self::Var(Var { name: id }));
-- 
2.43.0


From 18710e95a7bc1f5d99db51d3ad9a277719267dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 33/73] fix: export as a macro if an argument is modified in
 place or its address is taken

Only direct assignments were considered, so '++arg', 'arg.field = 1' and '&arg'
became functions which only see a copy of the argument.
---
 src/ast/binary_expr.rs | 2 +-
 src/ast/expr.rs        | 9 +++++++++
 src/ast/unary_expr.rs  | 7 +++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 100fcb2..dc8b571 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -217,7 +217,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     // Must export as a macro in order to be able to assign to a macro argument.
-    if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
+    if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 99885da..3f0b0a5 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -43,6 +43,15 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Whether the expression denotes a macro argument itself or a part of it.
+  pub(crate) fn is_arg_place(&self) -> bool {
+    match self {
+      Self::Var(Var { name: IdentifierExpr::Arg(_) }) => true,
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_arg_place(),
+      _ => false,
+    }
+  }
+
   /// Whether the generated expression starts with a block, i.e. would be a statement on its own.
   pub(crate) const fn is_block(&self) -> bool {
     match self {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index e0fbd64..659b1b6 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -70,6 +70,13 @@ impl<'t> UnaryExpr<'t> {
   {
     let mut ty = self.expr.finish(ctx)?;
 
+    // Must export as a macro in order to be able to modify a macro argument or take its address.
+    if matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::AddrOf)
+      && self.expr.is_arg_place()
+    {
+      ctx.export_as_macro = true;
+    }
+
     // In C, the result of a comparison is of type `int`, while in Rust, `!` means something else for `bool`.
     if ty == Some(Type::BuiltIn(BuiltInType::Bool)) && matches!(self.op, UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Comp) {
       let int = Type::BuiltIn(BuiltInType::Int);
-- 
2.43.0


From 233e5c38c29d86f1e1828e48c12a33427905622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 34/73] fix: apply the right operator when assigning through a
 volatile pointer

Every compound assignment was an addition.
---
 src/ast/binary_expr.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index dc8b571..4604b02 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -109,6 +109,23 @@ impl BinaryOp {
     }
   }
 
+  /// The operator which is applied before assigning.
+  const fn without_assign(&self) -> Option<Self> {
+    Some(match self {
+      Self::AddAssign => Self::Add,
+      Self::SubAssign => Self::Sub,
+      Self::MulAssign => Self::Mul,
+      Self::DivAssign => Self::Div,
+      Self::RemAssign => Self::Rem,
+      Self::ShlAssign => Self::Shl,
+      Self::ShrAssign => Self::Shr,
+      Self::BitAndAssign => Self::BitAnd,
+      Self::BitXorAssign => Self::BitXor,
+      Self::BitOrAssign => Self::BitOr,
+      _ => return None,
+    })
+  }
+
   pub(crate) const fn is_assignment(&self) -> bool {
     matches!(
       self,
@@ -322,11 +339,12 @@ impl<'t> BinaryExpr<'t> {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
               let lhs_ptr = expr.to_token_stream(ctx);
 
-              let value = if self.op == BinaryOp::Assign {
-                quote! { #rhs }
-              } else {
+              let value = if let Some(op) = self.op.without_assign() {
                 let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + #rhs }
+                let rhs = if rhs_prec >= op.precedence().0 { quote! { (#rhs) } } else { rhs };
+                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+              } else {
+                quote! { #rhs }
               };
 
               let prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 86b183de5d6990852f02faeea49b87c1880d6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 35/73] fix: make every compound assignment an expression with
 the assigned value

'x *= y' and those with /=, %=, <<= and >>= were of type '()' and parenthesized
the left-hand side and assignments on the right-hand side wrongly.
---
 src/ast/binary_expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 4604b02..73811eb 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -331,6 +331,11 @@ impl<'t> BinaryExpr<'t> {
       BinaryOp::Assign
       | BinaryOp::AddAssign
       | BinaryOp::SubAssign
+      | BinaryOp::MulAssign
+      | BinaryOp::DivAssign
+      | BinaryOp::RemAssign
+      | BinaryOp::ShlAssign
+      | BinaryOp::ShrAssign
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
-- 
2.43.0


From 32105a9fa42b7abaa93958bab449ec885e9aeda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 36/73] fix: evaluate an assigned operand once and keep
 accesses through volatile pointers volatile

---
 src/ast/binary_expr.rs |  63 ++++++++++------
 src/ast/expr.rs        |  46 ++++++++++++
 src/ast/unary_expr.rs  | 165 ++++++++++++++++-------------------------
 3 files changed, 153 insertions(+), 121 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 73811eb..6d992d8 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -339,34 +339,55 @@ impl<'t> BinaryExpr<'t> {
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let value = if let Some(op) = self.op.without_assign() {
-                let prefix = ctx.trait_prefix().into_iter();
-                let rhs = if rhs_prec >= op.precedence().0 { quote! { (#rhs) } } else { rhs };
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
-              } else {
-                quote! { #rhs }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
+        // Whether the left-hand side is an access through a volatile pointer which itself has side effects.
+        let bind_ptr = match &*self.lhs {
+          Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.has_side_effects(),
+          lhs => lhs.has_side_effects(),
+        };
+
+        if let Some(lhs_ptr) = self.lhs.to_volatile_ptr(ctx) {
+          let (bind_ptr, lhs_ptr, rhs) = if bind_ptr {
+            (Some(quote! { let (ptr, value) = (#lhs_ptr, #rhs); }), quote! { ptr }, quote! { value })
+          } else {
+            (None, lhs_ptr, rhs)
+          };
+
+          let value = if let Some(op) = self.op.without_assign() {
+            let prefix = ctx.trait_prefix().into_iter();
+            let rhs = if bind_ptr.is_none() && rhs_prec >= op.precedence().0 { quote! { (#rhs) } } else { rhs };
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+          } else {
+            quote! { #rhs }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              #bind_ptr
+              let value = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
+              value
             }
           }
         }
 
+        // The left-hand side must only be evaluated once.
+        if bind_ptr {
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! { { let (ptr, value) = (#(#prefix::)*ptr::addr_of_mut!(#lhs), #rhs); *ptr #op value; *ptr } }
+        }
+
         quote! { { #lhs #op #rhs; #lhs } }
       },
       op => {
+        if op == BinaryOp::MemberAccess {
+          if let Some(ptr) = self.lhs.to_volatile_ptr(ctx) {
+            let prefix = ctx.trait_prefix().into_iter();
+            let prefix2 = prefix.clone();
+            return quote! { #(#prefix::)*ptr::read_volatile(#(#prefix2::)*ptr::addr_of_mut!((*(#ptr)).#rhs)) }
+          }
+        }
+
         if lhs_parens {
           lhs = quote! { (#lhs) };
         }
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f0b0a5..c92b58f 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -52,6 +52,52 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Whether the expression is a pointer to `volatile`.
+  pub(crate) fn is_volatile_ptr(&self) -> bool {
+    match self {
+      Self::Cast(Cast { ty, .. }) => {
+        let ty = if let Type::Qualified { ty, .. } = ty { ty } else { ty };
+        matches!(ty, Type::Ptr { ty } if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()))
+      },
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::Add | BinaryOp::Sub, .. }) => {
+        matches!(&**lhs, Self::Cast(_)) && lhs.is_volatile_ptr()
+      },
+      _ => false,
+    }
+  }
+
+  /// Get the pointer to the object if it is accessed through a pointer to `volatile`.
+  pub(crate) fn to_volatile_ptr<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> Option<TokenStream> {
+    match self {
+      Self::Unary(expr) => expr.to_volatile_ptr(ctx),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, rhs }) => {
+        let ptr = lhs.to_volatile_ptr(ctx)?;
+        let field = rhs.to_token_stream(ctx);
+        let prefix = ctx.trait_prefix().into_iter();
+        Some(quote! { #(#prefix::)*ptr::addr_of_mut!((*(#ptr)).#field) })
+      },
+      _ => None,
+    }
+  }
+
+  /// Whether evaluating the expression twice differs from evaluating it once.
+  pub(crate) fn has_side_effects(&self) -> bool {
+    match self {
+      Self::FunctionCall(_) => true,
+      Self::Cast(Cast { expr, .. }) => expr.has_side_effects(),
+      Self::Unary(UnaryExpr { op, expr }) => {
+        matches!(op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec)
+          || (*op == UnaryOp::Deref && expr.is_volatile_ptr())
+          || expr.has_side_effects()
+      },
+      Self::Binary(BinaryExpr { lhs, op, rhs }) => op.is_assignment() || lhs.has_side_effects() || rhs.has_side_effects(),
+      Self::Ternary(TernaryExpr { condition, if_branch, else_branch }) => {
+        condition.has_side_effects() || if_branch.has_side_effects() || else_branch.has_side_effects()
+      },
+      _ => false,
+    }
+  }
+
   /// Whether the generated expression starts with a block, i.e. would be a statement on its own.
   pub(crate) const fn is_block(&self) -> bool {
     match self {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 659b1b6..bc83eff 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -103,6 +103,22 @@ impl<'t> UnaryExpr<'t> {
     }
   }
 
+  /// Get the pointer if this is a dereference of a pointer to `volatile`.
+  pub(crate) fn to_volatile_ptr<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> Option<TokenStream> {
+    if self.op != UnaryOp::Deref || !self.expr.is_volatile_ptr() {
+      return None
+    }
+
+    if let Expr::Binary(BinaryExpr { lhs, op, rhs }) = &*self.expr {
+      let lhs = lhs.to_token_stream(ctx);
+      let rhs = rhs.to_token_stream(ctx);
+
+      Some(if *op == BinaryOp::Add { quote! { (#lhs).add(#rhs) } } else { quote! { (#lhs).sub(#rhs) } })
+    } else {
+      Some(self.expr.to_token_stream(ctx))
+    }
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     tokens.append_all(self.to_token_stream(ctx))
   }
@@ -120,118 +136,63 @@ impl<'t> UnaryExpr<'t> {
     };
 
     match self.op {
-      UnaryOp::Inc => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => {
+        let op = match self.op {
+          UnaryOp::Inc | UnaryOp::PostInc => quote! { + },
+          _ => quote! { - },
+        };
+
+        if let Some(lhs_ptr) = self.expr.to_volatile_ptr(ctx) {
+          let (bind_ptr, lhs_ptr) = if self.expr.has_side_effects() {
+            (Some(quote! { let ptr = #lhs_ptr; }), quote! { ptr })
+          } else {
+            (None, lhs_ptr)
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          let read = quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) };
+          let (read, write) = match self.op {
+            UnaryOp::Inc | UnaryOp::Dec => (quote! { #read #op 1 }, quote! { value }),
+            _ => (read, quote! { value #op 1 }),
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              #bind_ptr
+              let value = #read;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #write);
+              value
             }
           }
         }
 
-        quote! { { #raw_expr += 1; #raw_expr } }
-      },
-      UnaryOp::Dec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
-            }
-          }
+        // The operand must only be evaluated once.
+        let (bind_ptr, raw_expr) = if self.expr.has_side_effects() {
+          let prefix = ctx.trait_prefix().into_iter();
+          (Some(quote! { let ptr = #(#prefix::)*ptr::addr_of_mut!(#raw_expr); }), quote! { *ptr })
+        } else {
+          (None, raw_expr)
+        };
+
+        match self.op {
+          UnaryOp::Inc => quote! { { #bind_ptr #raw_expr += 1; #raw_expr } },
+          UnaryOp::Dec => quote! { { #bind_ptr #raw_expr -= 1; #raw_expr } },
+          UnaryOp::PostInc => quote! { { #bind_ptr let prev = #raw_expr; #raw_expr += 1; prev } },
+          _ => quote! { { #bind_ptr let prev = #raw_expr; #raw_expr -= 1; prev } },
         }
-
-        quote! { { #raw_expr -= 1; #raw_expr } }
-      },
-      UnaryOp::PostInc => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value + 1);
-                  value
-                }
-              }
-            }
-          }
-        }
-
-        quote! { { let prev = #raw_expr; #raw_expr += 1; prev } }
-      },
-      UnaryOp::PostDec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value - 1);
-                  value
-                }
-              }
-            }
-          }
-        }
-
-        quote! { { let prev = #raw_expr; #raw_expr -= 1; prev } }
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Plus => format!("+{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
+        if let Some(ptr) = self.to_volatile_ptr(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
+        }
+
         match &*self.expr {
-          Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) => {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! { #(#prefix::)*ptr::read_volatile(#raw_expr) }
-            }
-          },
           Expr::Binary(BinaryExpr { lhs, op, rhs }) => {
             let raw_lhs = lhs.to_token_stream(ctx);
             let raw_rhs = rhs.to_token_stream(ctx);
@@ -267,6 +228,10 @@ impl<'t> UnaryExpr<'t> {
         format!("*{expr}").parse::<TokenStream>().unwrap()
       },
       UnaryOp::AddrOf => {
+        if let Some(ptr) = self.expr.to_volatile_ptr(ctx) {
+          return quote! { #ptr }
+        }
+
         let trait_prefix = ctx.trait_prefix().into_iter();
         quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
       },
-- 
2.43.0


From 8f69642a0716b579a3de34331f70da021ea2234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 37/73] fix: give a shift the type of its left operand

---
 src/ast/binary_expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 6d992d8..67c0505 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -289,6 +289,11 @@ impl<'t> BinaryExpr<'t> {
       return Ok(None)
     }
 
+    // The type of a shift is that of the shifted operand.
+    if matches!(self.op, BinaryOp::Shl | BinaryOp::Shr | BinaryOp::ShlAssign | BinaryOp::ShrAssign) {
+      return Ok(lhs_ty)
+    }
+
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
-- 
2.43.0


From 0e66bfd971b478f61b261cada8f039aa06d91515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 38/73] fix: accept the semicolon at the end of a do-while
 statement

---
 src/ast/statement.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 902dd28..0387105 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -70,9 +70,13 @@ impl<'t> Statement<'t> {
           else_branch: else_branch.unwrap_or_default(),
         },
       ),
-      map(preceded(terminated(id("do"), meta), pair(block, preceded(id("while"), condition))), |(block, condition)| {
-        Self::DoWhile { block, condition }
-      }),
+      map(
+        terminated(
+          preceded(terminated(id("do"), meta), pair(block, preceded(id("while"), condition))),
+          opt(preceded(meta, punct(";"))),
+        ),
+        |(block, condition)| Self::DoWhile { block, condition },
+      ),
       map(
         delimited(
           terminated(punct("{"), meta),
-- 
2.43.0


From f7f10aa7e80d3a8afe4995bc9c705465a9c83ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 39/73] fix: keep variables declared in a loop body out of
 scope in its condition

---
 src/ast/statement.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 0387105..6840f6a 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -184,12 +184,16 @@ impl<'t> Statement<'t> {
         })
       },
       Self::DoWhile { block, condition } => {
+        // Variables declared inside the block are not in scope in the condition.
+        let has_declaration = block.iter().any(|stmt| matches!(stmt, Self::VarDecl(_)));
+
         let block = block.iter().map(|stmt| stmt.to_token_stream(ctx)).collect::<Vec<_>>();
+        let block = if has_declaration { quote! { { #(#block)* } } } else { quote! { #(#block)* } };
         let condition = condition.to_token_stream(ctx);
 
         tokens.append_all(quote! {
           loop {
-            #(#block)*
+            #block
 
             if #condition {
               continue
-- 
2.43.0


From 8a2e9906abf4ba9851468f27bbbcdd6b09e20248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 40/73] fix: do not parse if, do and other statement keywords
 as names

---
 src/ast/identifier_expr.rs |  4 ++--
 src/ast/tokens.rs          | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 9bc7e4e..5b5565e 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -12,7 +12,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{
-  tokens::{macro_arg, macro_id},
+  tokens::{macro_arg, macro_id, plain_id},
   *,
 };
 use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
@@ -32,7 +32,7 @@ pub enum IdentifierExpr<'t> {
 impl<'t> IdentifierExpr<'t> {
   /// Parse identifier concatenation, e.g. `arg ## 2`.
   pub(crate) fn parse_concat_ident<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    let (tokens, id) = alt((map(macro_arg, Self::Arg), map(macro_id, Self::Plain)))(tokens)?;
+    let (tokens, id) = alt((map(macro_arg, Self::Arg), map(plain_id, Self::Plain)))(tokens)?;
 
     fold_many0(
       preceded(
diff --git a/src/ast/tokens.rs b/src/ast/tokens.rs
index f5b3a6d..0d9ed15 100644
--- a/src/ast/tokens.rs
+++ b/src/ast/tokens.rs
@@ -17,6 +17,16 @@ pub(crate) fn macro_id<'i, 't>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [Mac
   map_opt(take_one, |token| if let MacroToken::Identifier(id) = token { Some(id.clone()) } else { None })(tokens)
 }
 
+// Keywords which neither name a type nor can be an operand.
+const STATEMENT_KEYWORDS: &[&str] = &[
+  "break", "case", "continue", "default", "do", "else", "for", "goto", "if", "return", "switch", "while",
+];
+
+/// Parse an identifier which is not a keyword.
+pub(crate) fn plain_id<'i, 't>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Identifier<'t>> {
+  verify(macro_id, |id: &Identifier<'t>| !STATEMENT_KEYWORDS.contains(&id.as_str()))(tokens)
+}
+
 pub(crate) fn take_one<I>(tokens: &[I]) -> IResult<&[I], &I>
 where
   I: Clone,
-- 
2.43.0


From fdd9715cd6da68972fb3b437c568a824d8427938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 41/73] fix: escape braces inside of an assembly template

---
 src/ast/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 49cb1ba..ccf9202 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -91,7 +91,7 @@ impl<'t> Asm<'t> {
           ),
           // Escape Rust format string.
           map(alt((char('{'), char('}'))), |c| format!("{0}{0}", c)),
-          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%"), String::new, |mut acc, c| {
+          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%{}"), String::new, |mut acc, c| {
             acc.push(c);
             acc
           }),
-- 
2.43.0


From efe49d3843f2158bc854c22e1a53d791a2b9a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 42/73] fix: only treat % specially in assembly with operands

---
 src/ast/asm.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index ccf9202..6a49a16 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -86,7 +86,9 @@ impl<'t> Asm<'t> {
                 let n = s.parse::<usize>().ok()?;
                 Some(format!("{{{}}}", n))
               }),
-              map(alpha1, |reg| format!("%{reg}")),
+              // Escaped characters.
+              map(alt((char('%'), char('|'))), |c| c.to_string()),
+              map(alt((char('{'), char('}'))), |c| format!("{0}{0}", c)),
             )),
           ),
           // Escape Rust format string.
@@ -102,10 +104,19 @@ impl<'t> Asm<'t> {
           acc
         },
       ),
-      |s| s.split('\n').map(|s| s.trim().to_owned()).collect(),
+      |s| Self::template_lines(&s),
     ))(input)
   }
 
+  /// Parse a template without operands, in which `%` has no special meaning.
+  fn parse_basic_template(input: &str) -> Vec<String> {
+    Self::template_lines(&input.replace('{', "{{").replace('}', "}}"))
+  }
+
+  fn template_lines(template: &str) -> Vec<String> {
+    template.split('\n').map(|s| s.trim().to_owned()).collect()
+  }
+
   fn parse_reg_constraint(input: &str) -> IResult<&str, RegConstraint> {
     alt((
       map_opt(alpha1, |s: &str| {
@@ -145,10 +156,7 @@ impl<'t> Asm<'t> {
       parenthesized(tuple((
         delimited(
           meta,
-          map_opt(LitString::parse, |s| {
-            let (_, template) = Self::parse_template(s.as_str()?).ok()?;
-            Some(template)
-          }),
+          map_opt(LitString::parse, |s| Some(s.as_str()?.to_owned())),
           meta,
         ),
         opt(preceded(
@@ -187,6 +195,16 @@ impl<'t> Asm<'t> {
       ))),
     )(tokens)?;
 
+    // Only a template followed by a colon can refer to operands.
+    let template = if outputs.is_some() {
+      match Self::parse_template(&template) {
+        Ok((_, template)) => template,
+        Err(_) => return Err(nom::Err::Error(nom::error::Error::new(tokens, nom::error::ErrorKind::MapOpt))),
+      }
+    } else {
+      Self::parse_basic_template(&template)
+    };
+
     let outputs = outputs.unwrap_or_default();
     let inputs = inputs.unwrap_or_default();
     let clobbers = clobbers.unwrap_or_default();
-- 
2.43.0


From 0f9168025a2eeb2b99de10e8deaee7656e9d43c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 43/73] fix: pass inputs tied to an output and keep operand
 references of an assembly template

---
 src/ast/asm.rs | 102 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 87 insertions(+), 15 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 6a49a16..e7c36ea 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -209,9 +209,68 @@ impl<'t> Asm<'t> {
     let inputs = inputs.unwrap_or_default();
     let clobbers = clobbers.unwrap_or_default();
 
+    if !Self::check_operands(&template, &outputs, &inputs) {
+      return Err(nom::Err::Error(nom::error::Error::new(tokens, nom::error::ErrorKind::Verify)))
+    }
+
     Ok((tokens, Self { template, outputs, inputs, clobbers }))
   }
 
+  /// Check that all operands which are referred to exist.
+  fn check_operands(
+    template: &[String],
+    outputs: &[(Dir, RegConstraint, Expr<'t>)],
+    inputs: &[(RegConstraint, Expr<'t>)],
+  ) -> bool {
+    if outputs.iter().any(|(_, reg, _)| matches!(reg, RegConstraint::Digit(_))) {
+      return false
+    }
+
+    // An input can only be tied to an output which has no input yet.
+    let mut tied = vec![false; outputs.len()];
+    for (reg, _) in inputs {
+      if let RegConstraint::Digit(n) = reg {
+        let n = usize::from(*n);
+        match outputs.get(n) {
+          Some((Dir::Out, _, _)) if !tied[n] => tied[n] = true,
+          _ => return false,
+        }
+      }
+    }
+
+    let mut valid = true;
+    for line in template {
+      Self::map_references(line, |n| {
+        valid &= n < outputs.len() + inputs.len();
+        n
+      });
+    }
+    valid
+  }
+
+  /// Replace the operand numbers in a line of the template.
+  fn map_references(line: &str, mut f: impl FnMut(usize) -> usize) -> String {
+    let mut mapped = String::new();
+    let mut chars = line.chars().peekable();
+
+    while let Some(c) = chars.next() {
+      mapped.push(c);
+
+      if c == '{' && chars.peek() != Some(&'{') {
+        let mut n = String::new();
+        while let Some(digit) = chars.next_if(char::is_ascii_digit) {
+          n.push(digit);
+        }
+        mapped.push_str(&f(n.parse().unwrap_or(usize::MAX)).to_string());
+        mapped.extend(chars.next());
+      } else if c == '{' || c == '}' {
+        mapped.extend(chars.next());
+      }
+    }
+
+    mapped
+  }
+
   #[allow(unused_variables)]
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
@@ -253,25 +312,38 @@ impl<'t> Asm<'t> {
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let template = &self.template;
-
-    let mut outputs = self.outputs.clone();
-    let mut inputs = self.inputs.clone();
-
-    for (constraint, _) in self.inputs.iter() {
-      if let RegConstraint::Digit(d) = constraint {
-        if let Some((ref mut dir, _, _)) = outputs.get_mut(*d as usize) {
-          inputs.remove(*d as usize);
-          *dir = Dir::InOut;
-        }
+    // Inputs tied to an output become part of that output.
+    let mut tied = vec![None; self.outputs.len()];
+    let mut inputs = Vec::new();
+    let mut numbers = (0..self.outputs.len()).collect::<Vec<_>>();
+
+    for (reg, input) in self.inputs.iter() {
+      if let RegConstraint::Digit(n) = reg {
+        tied[usize::from(*n)] = Some(input);
+        numbers.push(usize::from(*n));
+      } else {
+        numbers.push(self.outputs.len() + inputs.len());
+        inputs.push((reg, input));
       }
     }
 
-    let outputs = outputs
+    let template = self.template.iter().map(|line| Self::map_references(line, |n| numbers[n])).collect::<Vec<_>>();
+
+    let outputs = self
+      .outputs
       .iter()
-      .map(|(dir, reg, var)| {
-        let var = var.to_token_stream(ctx);
-        quote! { #dir(#reg) #var }
+      .zip(tied)
+      .map(|((dir, reg, var), input)| {
+        let place = var.to_token_stream(ctx);
+
+        match input {
+          Some(input) if input == var => quote! { inout(#reg) #place },
+          Some(input) => {
+            let input = input.to_token_stream(ctx);
+            quote! { inout(#reg) #input => #place }
+          },
+          None => quote! { #dir(#reg) #place },
+        }
       })
       .collect::<Vec<_>>();
     let inputs = inputs
-- 
2.43.0


From c58397093b029e58eb6015ea7e5c85f3795a9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 44/73] fix: export macros whose assembly writes to an argument
 as macros

---
 src/ast/asm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index e7c36ea..153c1b9 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -278,6 +278,11 @@ impl<'t> Asm<'t> {
   {
     for (_, _, output) in self.outputs.iter_mut() {
       output.finish(ctx)?;
+
+      // A function would only modify its own copy of the argument.
+      if output.is_arg_place() {
+        ctx.export_as_macro = true;
+      }
     }
 
     for (_, input) in self.inputs.iter_mut() {
-- 
2.43.0


From c527673f804de11bbfe468c39e72bd54aa37ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 45/73] fix: do not combine clobber_abi with outputs

---
 src/ast/asm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 153c1b9..8c82343 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -380,7 +380,8 @@ impl<'t> Asm<'t> {
         options.push(quote! { preserves_flags });
       }
 
-      let clobber_abi = if clobbers.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
+      // `clobber_abi` cannot be used together with outputs.
+      let clobber_abi = if clobbers.is_empty() || !outputs.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
 
       (quote! { asm! }, clobber_abi)
     };
-- 
2.43.0


From b0f46b4c0f680873358a4b4e708e2499aadc4462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 46/73] fix: do not parse asm without a final semicolon as a
 call

---
 src/ast/tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/tokens.rs b/src/ast/tokens.rs
index 0d9ed15..69ebe7c 100644
--- a/src/ast/tokens.rs
+++ b/src/ast/tokens.rs
@@ -19,7 +19,8 @@ pub(crate) fn macro_id<'i, 't>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [Mac
 
 // Keywords which neither name a type nor can be an operand.
 const STATEMENT_KEYWORDS: &[&str] = &[
-  "break", "case", "continue", "default", "do", "else", "for", "goto", "if", "return", "switch", "while",
+  "__asm", "__asm__", "asm", "break", "case", "continue", "default", "do", "else", "for", "goto", "if", "return",
+  "switch", "while",
 ];
 
 /// Parse an identifier which is not a keyword.
-- 
2.43.0


From 580f32e204740e234abfd34c756adf80d2f778e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 47/73] fix: emit assembly with operands or clobbers inside of
 the function

---
 src/ast/asm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 8c82343..b99ff56 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -310,10 +310,14 @@ impl<'t> Asm<'t> {
   }
 
   fn is_global(&self) -> bool {
-    self
-      .template
-      .iter()
-      .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
+    // `global_asm!` does not support clobbers or outputs.
+    self.outputs.is_empty()
+      && self.inputs.is_empty()
+      && self.clobbers.is_empty()
+      && self
+        .template
+        .iter()
+        .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-- 
2.43.0


From 5f4cd1e28d2bf2cf0587f4bc08eb8702c208883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 48/73] fix: access objects through the address of a volatile
 object or a conditional volatile pointer as volatile

---
 src/ast/expr.rs       | 15 ++++++++++++++-
 src/ast/unary_expr.rs |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index c92b58f..6c83227 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -60,8 +60,21 @@ impl<'t> Expr<'t> {
         matches!(ty, Type::Ptr { ty } if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()))
       },
       Self::Binary(BinaryExpr { lhs, op: BinaryOp::Add | BinaryOp::Sub, .. }) => {
-        matches!(&**lhs, Self::Cast(_)) && lhs.is_volatile_ptr()
+        !matches!(&**lhs, Self::Binary(_)) && lhs.is_volatile_ptr()
       },
+      Self::Ternary(TernaryExpr { if_branch, else_branch, .. }) => {
+        if_branch.is_volatile_ptr() || else_branch.is_volatile_ptr()
+      },
+      Self::Unary(UnaryExpr { op: UnaryOp::AddrOf, expr }) => expr.is_volatile(),
+      _ => false,
+    }
+  }
+
+  /// Whether this is an object accessed through a pointer to `volatile`.
+  fn is_volatile(&self) -> bool {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.is_volatile_ptr(),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_volatile(),
       _ => false,
     }
   }
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index bc83eff..17d8f34 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -229,7 +229,7 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::AddrOf => {
         if let Some(ptr) = self.expr.to_volatile_ptr(ctx) {
-          return quote! { #ptr }
+          return quote! { (#ptr) }
         }
 
         let trait_prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 2baebb4a3f2c98f59d92c7ab6b4034431847b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 49/73] fix: evaluate an assigned operand once if the
 assignment may change it

---
 src/ast/binary_expr.rs |  8 ++------
 src/ast/expr.rs        | 21 +++++++++++++++++++++
 src/ast/unary_expr.rs  |  4 ++--
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 67c0505..50f1813 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -344,11 +344,7 @@ impl<'t> BinaryExpr<'t> {
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
-        // Whether the left-hand side is an access through a volatile pointer which itself has side effects.
-        let bind_ptr = match &*self.lhs {
-          Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.has_side_effects(),
-          lhs => lhs.has_side_effects(),
-        };
+        let bind_ptr = self.lhs.changes_with_assignment();
 
         if let Some(lhs_ptr) = self.lhs.to_volatile_ptr(ctx) {
           let (bind_ptr, lhs_ptr, rhs) = if bind_ptr {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 6c83227..f464c08 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -111,6 +111,27 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Whether evaluating the operand of an assignment again afterwards may yield another object.
+  pub(crate) fn changes_with_assignment(&self) -> bool {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.has_side_effects() || expr.reads_memory(),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.changes_with_assignment(),
+      expr => expr.has_side_effects(),
+    }
+  }
+
+  /// Whether the value depends on memory accessed through a pointer.
+  fn reads_memory(&self) -> bool {
+    match self {
+      Self::Cast(Cast { expr, .. }) => expr.reads_memory(),
+      Self::Unary(UnaryExpr { op, expr }) => *op == UnaryOp::Deref || expr.reads_memory(),
+      Self::Binary(BinaryExpr { lhs, rhs, .. }) => lhs.reads_memory() || rhs.reads_memory(),
+      // One of the branches may be the address of a variable in the condition.
+      Self::Ternary(_) => true,
+      _ => false,
+    }
+  }
+
   /// Whether the generated expression starts with a block, i.e. would be a statement on its own.
   pub(crate) const fn is_block(&self) -> bool {
     match self {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 17d8f34..5fb8b3a 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -143,7 +143,7 @@ impl<'t> UnaryExpr<'t> {
         };
 
         if let Some(lhs_ptr) = self.expr.to_volatile_ptr(ctx) {
-          let (bind_ptr, lhs_ptr) = if self.expr.has_side_effects() {
+          let (bind_ptr, lhs_ptr) = if self.expr.changes_with_assignment() {
             (Some(quote! { let ptr = #lhs_ptr; }), quote! { ptr })
           } else {
             (None, lhs_ptr)
@@ -168,7 +168,7 @@ impl<'t> UnaryExpr<'t> {
         }
 
         // The operand must only be evaluated once.
-        let (bind_ptr, raw_expr) = if self.expr.has_side_effects() {
+        let (bind_ptr, raw_expr) = if self.expr.changes_with_assignment() {
           let prefix = ctx.trait_prefix().into_iter();
           (Some(quote! { let ptr = #(#prefix::)*ptr::addr_of_mut!(#raw_expr); }), quote! { *ptr })
         } else {
-- 
2.43.0


From f1ae890a3539da2c590cb3d90d2e96667f516ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 50/73] fix: do not hide variables named prev or value in
 assignments

---
 src/ast/binary_expr.rs |  9 +++++----
 src/ast/tokens.rs      | 18 ++++++++++++++++++
 src/ast/unary_expr.rs  | 22 +++++++++++++---------
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 50f1813..cfa21d8 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
+use super::{tokens::local_ident, BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -361,13 +361,14 @@ impl<'t> BinaryExpr<'t> {
             quote! { #rhs }
           };
 
+          let new_value = local_ident("value", &lhs_ptr);
           let prefix = ctx.trait_prefix().into_iter();
           return quote! {
             {
               #bind_ptr
-              let value = #value;
-              #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-              value
+              let #new_value = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #new_value);
+              #new_value
             }
           }
         }
diff --git a/src/ast/tokens.rs b/src/ast/tokens.rs
index 69ebe7c..efdc505 100644
--- a/src/ast/tokens.rs
+++ b/src/ast/tokens.rs
@@ -4,6 +4,7 @@ use nom::{
   sequence::{delimited, pair},
   IResult, Parser,
 };
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 
 use crate::MacroToken;
 
@@ -28,6 +29,23 @@ pub(crate) fn plain_id<'i, 't>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [Mac
   verify(macro_id, |id: &Identifier<'t>| !STATEMENT_KEYWORDS.contains(&id.as_str()))(tokens)
 }
 
+/// Create the name of a local variable which does not hide any of the given names.
+pub(crate) fn local_ident(name: &str, tokens: &TokenStream) -> Ident {
+  fn contains(tokens: &TokenStream, name: &str) -> bool {
+    tokens.clone().into_iter().any(|token| match token {
+      TokenTree::Ident(id) => id == name,
+      TokenTree::Group(group) => contains(&group.stream(), name),
+      _ => false,
+    })
+  }
+
+  let mut name = name.to_owned();
+  while contains(tokens, &name) {
+    name.push('_');
+  }
+  Ident::new(&name, Span::call_site())
+}
+
 pub(crate) fn take_one<I>(tokens: &[I]) -> IResult<&[I], &I>
 where
   I: Clone,
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 5fb8b3a..8267292 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
+use super::{tokens::local_ident, Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -151,18 +151,19 @@ impl<'t> UnaryExpr<'t> {
 
           let prefix = ctx.trait_prefix().into_iter();
           let read = quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) };
+          let value = local_ident("value", &lhs_ptr);
           let (read, write) = match self.op {
-            UnaryOp::Inc | UnaryOp::Dec => (quote! { #read #op 1 }, quote! { value }),
-            _ => (read, quote! { value #op 1 }),
+            UnaryOp::Inc | UnaryOp::Dec => (quote! { #read #op 1 }, quote! { #value }),
+            _ => (read, quote! { #value #op 1 }),
           };
 
           let prefix = ctx.trait_prefix().into_iter();
           return quote! {
             {
               #bind_ptr
-              let value = #read;
+              let #value = #read;
               #(#prefix::)*ptr::write_volatile(#lhs_ptr, #write);
-              value
+              #value
             }
           }
         }
@@ -175,11 +176,13 @@ impl<'t> UnaryExpr<'t> {
           (None, raw_expr)
         };
 
+        let prev = local_ident("prev", &raw_expr);
+
         match self.op {
           UnaryOp::Inc => quote! { { #bind_ptr #raw_expr += 1; #raw_expr } },
           UnaryOp::Dec => quote! { { #bind_ptr #raw_expr -= 1; #raw_expr } },
-          UnaryOp::PostInc => quote! { { #bind_ptr let prev = #raw_expr; #raw_expr += 1; prev } },
-          _ => quote! { { #bind_ptr let prev = #raw_expr; #raw_expr -= 1; prev } },
+          UnaryOp::PostInc => quote! { { #bind_ptr let #prev = #raw_expr; #raw_expr += 1; #prev } },
+          _ => quote! { { #bind_ptr let #prev = #raw_expr; #raw_expr -= 1; #prev } },
         }
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
@@ -213,12 +216,13 @@ impl<'t> UnaryExpr<'t> {
           },
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
+            let prev = local_ident("prev", &raw_expr);
 
             match op {
               UnaryOp::Inc => return quote! { *{ #raw_expr = #raw_expr.add(1); #raw_expr } },
               UnaryOp::Dec => return quote! { *{ #raw_expr = #raw_expr.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.sub(1); prev } },
+              UnaryOp::PostInc => return quote! { *{ let #prev = #raw_expr; #raw_expr = #raw_expr.add(1); #prev } },
+              UnaryOp::PostDec => return quote! { *{ let #prev = #raw_expr; #raw_expr = #raw_expr.sub(1); #prev } },
               _ => (),
             }
           },
-- 
2.43.0


From 072942f02f1a14fbbce97d2286f1bd23138ded8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 51/73] fix: dereference of an incremented or decremented
 pointer which is accessed through a pointer

---
 src/ast/unary_expr.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 8267292..1ee8d47 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -216,13 +216,29 @@ impl<'t> UnaryExpr<'t> {
           },
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
+            let (expr_prec, _) = expr.precedence();
+
+            // The operand must only be evaluated once.
+            let (bind_ptr, raw_expr, ptr) = if expr.changes_with_assignment() {
+              let prefix = ctx.trait_prefix().into_iter();
+              let bind_ptr = quote! { let ptr = #(#prefix::)*ptr::addr_of_mut!(#raw_expr); };
+              (Some(bind_ptr), quote! { *ptr }, quote! { (*ptr) })
+            } else if expr_prec > 1 {
+              (None, raw_expr.clone(), quote! { (#raw_expr) })
+            } else {
+              (None, raw_expr.clone(), raw_expr)
+            };
             let prev = local_ident("prev", &raw_expr);
 
             match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #raw_expr.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #raw_expr.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let #prev = #raw_expr; #raw_expr = #raw_expr.add(1); #prev } },
-              UnaryOp::PostDec => return quote! { *{ let #prev = #raw_expr; #raw_expr = #raw_expr.sub(1); #prev } },
+              UnaryOp::Inc => return quote! { *{ #bind_ptr #raw_expr = #ptr.add(1); #raw_expr } },
+              UnaryOp::Dec => return quote! { *{ #bind_ptr #raw_expr = #ptr.sub(1); #raw_expr } },
+              UnaryOp::PostInc => {
+                return quote! { *{ #bind_ptr let #prev = #raw_expr; #raw_expr = #ptr.add(1); #prev } }
+              },
+              UnaryOp::PostDec => {
+                return quote! { *{ #bind_ptr let #prev = #raw_expr; #raw_expr = #ptr.sub(1); #prev } }
+              },
               _ => (),
             }
           },
-- 
2.43.0


From 042da1af6f99e1cad94ee5c8b13a82435f809251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 52/73] fix: a pointer is *const if what it points to is const,
 not if it is const itself

---
 src/ast/cast.rs           |  8 +++---
 src/ast/expr.rs           | 15 +++++-----
 src/ast/literal/string.rs |  3 +-
 src/ast/stringify.rs      |  7 ++---
 src/ast/ty.rs             | 60 +++++++++++++++++++++------------------
 src/ast/unary_expr.rs     |  4 +--
 src/ast/var.rs            |  7 ++---
 7 files changed, 50 insertions(+), 54 deletions(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index f99424e..ee4ec14 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -39,10 +39,10 @@ impl<'t> Cast<'t> {
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    tokens.append_all(match (&self.ty, &*self.expr) {
-      (Type::Qualified { ty, qualifier }, Expr::Literal(Lit::Int(LitInt { value: 0, .. })))
-        if matches!(**ty, Type::Ptr { .. }) && qualifier.is_const() =>
-      {
+    let ty = if let Type::Qualified { ty, .. } = &self.ty { ty } else { &self.ty };
+
+    tokens.append_all(match (ty, &*self.expr) {
+      (Type::Ptr { ty }, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) if ty.is_const() => {
         let prefix = ctx.trait_prefix().into_iter();
         quote! { #(#prefix::)*ptr::null() }
       },
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index f464c08..b99850d 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -542,10 +542,12 @@ impl<'t> Expr<'t> {
         }
 
         // Remove redundant casts from string literals, e.g. `(char*)"adsf"`.
-        if matches!(
-          (&*cast.expr, &cast.ty), (Expr::Literal(Lit::String(LitString::Ordinary(_))), Type::Qualified { ty, qualifier })
-          if matches!(&**ty, Type::Ptr { ty, .. } if matches!(**ty, Type::BuiltIn(BuiltInType::Char))) && qualifier.is_const()
-        ) {
+        if matches!(&*cast.expr, Expr::Literal(Lit::String(LitString::Ordinary(_))))
+          && matches!(
+            cast.ty.clone().unqualified(), Type::Ptr { ty }
+            if ty.clone().unqualified() == Type::BuiltIn(BuiltInType::Char) && (ty.is_const() || cast.ty.is_const())
+          )
+        {
           *self = (*cast.expr).clone();
           return self.finish(ctx)
         }
@@ -625,10 +627,7 @@ impl<'t> Expr<'t> {
           self.finish(ctx)
         } else {
           *self = Self::ConcatString(new_names);
-          Ok(Some(Type::Qualified {
-            ty: Box::new(Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }),
-            qualifier: TypeQualifier::Const,
-          }))
+          Ok(Some(Type::BuiltIn(BuiltInType::Char).const_ptr()))
         }
       },
       Self::Unary(op) => {
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 258e221..1718880 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -20,7 +20,6 @@ use quote::quote;
 
 use crate::{
   codegen::quote_static_ref, BuiltInType, CodegenContext, IdentifierExpr, Lit, LocalContext, MacroToken, Type,
-  TypeQualifier,
 };
 
 use crate::ast::{
@@ -356,7 +355,7 @@ impl<'t> LitString<'t> {
       },
     };
 
-    Ok(Some(Type::Qualified { ty: Box::new(Type::Ptr { ty: Box::new(ty) }), qualifier: TypeQualifier::Const }))
+    Ok(Some(ty.const_ptr()))
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index a140793..4393dd3 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -11,7 +11,7 @@ use quote::{quote, TokenStreamExt};
 
 use super::{
   tokens::{macro_arg, macro_id, meta, punct},
-  BuiltInType, Expr, IdentifierExpr, Type, TypeQualifier, Var,
+  BuiltInType, Expr, IdentifierExpr, Type, Var,
 };
 use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType, MacroToken};
 
@@ -54,10 +54,7 @@ impl<'t> Stringify<'t> {
       _ => return Err(crate::CodegenError::UnsupportedExpression("stringification".to_owned())),
     }
 
-    Ok(Some(Type::Qualified {
-      ty: Box::new(Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }),
-      qualifier: TypeQualifier::Const,
-    }))
+    Ok(Some(Type::BuiltIn(BuiltInType::Char).const_ptr()))
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>, tokens: &mut TokenStream) {
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6cf3f7a..de7ef9e 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -411,6 +411,24 @@ impl<'t> Type<'t> {
     }
   }
 
+  /// Create a pointer to `const` with the given type as its target.
+  pub(crate) fn const_ptr(self) -> Self {
+    Self::Ptr { ty: Box::new(self.qualify(TypeQualifier::Const)) }
+  }
+
+  /// Check if this type itself, rather than what it points to, is `const`.
+  pub(crate) fn is_const(&self) -> bool {
+    matches!(self, Self::Qualified { qualifier, .. } if qualifier.is_const())
+  }
+
+  /// Remove the outermost qualifiers, which a value, as opposed to an object, does not have.
+  pub(crate) fn unqualified(self) -> Self {
+    match self {
+      Self::Qualified { ty, .. } => *ty,
+      ty => ty,
+    }
+  }
+
   /// Check if this type is `void`.
   pub fn is_void(&self) -> bool {
     matches!(self, Self::BuiltIn(BuiltInType::Void))
@@ -459,20 +477,11 @@ impl<'t> Type<'t> {
         let ids = segments.iter().map(|id| Ident::new(id.as_str(), Span::call_site()));
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
-      Self::Ptr { ty } => {
-        let ty = ty.to_token_stream(ctx);
-        tokens.append_all(quote! { *mut #ty })
-      },
-      Self::Qualified { ty, qualifier } => {
-        let ty = match &**ty {
-          Self::Ptr { ty, .. } if qualifier.is_const() => {
-            let ty = ty.to_token_stream(ctx);
-            quote! { *const #ty }
-          },
-          ty => ty.to_token_stream(ctx),
-        };
-        tokens.append_all(ty)
+      Self::Ptr { ty: pointee } => {
+        let ty = pointee.to_token_stream(ctx);
+        tokens.append_all(if pointee.is_const() { quote! { *const #ty } } else { quote! { *mut #ty } })
       },
+      Self::Qualified { ty, .. } => ty.to_tokens(ctx, tokens),
     }
   }
 
@@ -485,13 +494,9 @@ impl<'t> Type<'t> {
   pub(crate) fn from_rust_ty(ty: &syn::Type, ffi_prefix: Option<&syn::Path>) -> Result<Self, crate::CodegenError> {
     match ty {
       syn::Type::Ptr(ptr_ty) => {
-        let ty = Self::Ptr { ty: Box::new(Self::from_rust_ty(&ptr_ty.elem, ffi_prefix)?) };
+        let ty = Self::from_rust_ty(&ptr_ty.elem, ffi_prefix)?;
 
-        if ptr_ty.mutability.is_some() {
-          Ok(ty)
-        } else {
-          Ok(Self::Qualified { ty: Box::new(ty), qualifier: TypeQualifier::Const })
-        }
+        Ok(if ptr_ty.mutability.is_some() { Self::Ptr { ty: Box::new(ty) } } else { ty.const_ptr() })
       },
       syn::Type::Tuple(tuple_ty) if tuple_ty.elems.is_empty() => Ok(Type::BuiltIn(BuiltInType::Void)),
       syn::Type::Verbatim(ty) => {
@@ -536,17 +541,16 @@ impl<'t> Type<'t> {
 
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
-      Self::Ptr { ty } => {
-        let ty = ty.to_rust_ty(ctx)?;
-        syn::parse_quote! { *mut #ty }
-      },
-      Self::Qualified { ty, qualifier } => match &**ty {
-        Self::Ptr { ty, .. } if qualifier.is_const() => {
-          let ty = ty.to_rust_ty(ctx)?;
+      Self::Ptr { ty: pointee } => {
+        let ty = pointee.to_rust_ty(ctx)?;
+
+        if pointee.is_const() {
           syn::parse_quote! { *const #ty }
-        },
-        ty => return ty.to_rust_ty(ctx),
+        } else {
+          syn::parse_quote! { *mut #ty }
+        }
       },
+      Self::Qualified { ty, .. } => return ty.to_rust_ty(ctx),
     })
   }
 
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 1ee8d47..1282f14 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -91,8 +91,8 @@ impl<'t> UnaryExpr<'t> {
           return Err(crate::CodegenError::UnsupportedExpression("dereference in variable-like macro".to_owned()))
         }
 
-        match ty {
-          Some(Type::Ptr { ty, .. }) => Ok(Some(*ty)),
+        match ty.map(|ty| ty.unqualified()) {
+          Some(Type::Ptr { ty, .. }) => Ok(Some(ty.unqualified())),
           None => Ok(None),
           // Type can only be either a pointer-type or unknown.
           _ => Err(crate::CodegenError::UnsupportedExpression("dereference of non-pointer".to_owned())),
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 37091ad..92d745b 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, IdentifierExpr, Type, TypeQualifier};
+use super::{BuiltInType, IdentifierExpr, Type};
 
 /// A variable.
 ///
@@ -39,10 +39,7 @@ impl<'t> Var<'t> {
           },
           "__FILE__" => {
             ctx.export_as_macro = true;
-            Ok(Some(Type::Qualified {
-              ty: Box::new(Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }),
-              qualifier: TypeQualifier::Const,
-            }))
+            Ok(Some(Type::BuiltIn(BuiltInType::Char).const_ptr()))
           },
           "__SCHAR_MAX__" => Ok(Some(Type::BuiltIn(BuiltInType::SChar))),
           "__SHRT_MAX__" => Ok(Some(Type::BuiltIn(BuiltInType::Short))),
-- 
2.43.0


From af554256cbd5d55ac841978f475b04cb0e017635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 53/73] fix: do not turn a repeated volatile into const

---
 src/ast/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index de7ef9e..8d0b9d3 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -345,7 +345,7 @@ impl TypeQualifier {
   const fn or(self, other: Self) -> Self {
     match (self, other) {
       (Self::Const, Self::Const) => Self::Const,
-      (Self::Volatile, Self::Volatile) => Self::Const,
+      (Self::Volatile, Self::Volatile) => Self::Volatile,
       _ => Self::ConstVolatile,
     }
   }
-- 
2.43.0


From 643cee595eff6d5a13bf78ed7c45d9dbed107a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 54/73] fix: reject anything following a type when parsing it
 from a string

---
 src/ast/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 8d0b9d3..5aeeebd 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -2,7 +2,7 @@ use std::{fmt::Debug, str::FromStr};
 
 use nom::{
   branch::{alt, permutation},
-  combinator::{map, opt, value},
+  combinator::{all_consuming, map, opt, value},
   multi::fold_many0,
   sequence::{pair, preceded, terminated, tuple},
   IResult,
@@ -595,7 +595,7 @@ impl FromStr for Type<'static> {
         }
       })
       .collect::<Result<Vec<_>, _>>()?;
-    let (_, ty) = Type::parse(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
+    let (_, ty) = all_consuming(Type::parse)(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
 
     match ty.to_static() {
       Some(ty) => Ok(ty),
-- 
2.43.0


From b5eb55322fbfd4052c06c11f932cdc00d6c0986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 55/73] fix: treat a cast to a qualified type like a cast to
 the type itself

---
 src/ast/cast.rs | 5 +++--
 src/ast/expr.rs | 2 +-
 src/ast/ty.rs   | 6 +++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index ee4ec14..9c0bff5 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -29,13 +29,14 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
-    if self.ty == Type::BuiltIn(BuiltInType::Bool) {
+    if self.ty.clone().unqualified() == Type::BuiltIn(BuiltInType::Bool) {
       // Cannot cast anything other than `bool` to `bool`.
       self.expr.finish_condition(ctx)?;
     } else {
       self.expr.finish(ctx)?;
     }
-    Ok(Some(self.ty.clone()))
+    // A value has no qualifiers.
+    Ok(Some(self.ty.clone().unqualified()))
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index b99850d..b7b993d 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -541,7 +541,7 @@ impl<'t> Expr<'t> {
           }
         }
 
-        // Remove redundant casts from string literals, e.g. `(char*)"adsf"`.
+        // Remove redundant casts from string literals, e.g. `(const char*)"adsf"`.
         if matches!(&*cast.expr, Expr::Literal(Lit::String(LitString::Ordinary(_))))
           && matches!(
             cast.ty.clone().unqualified(), Type::Ptr { ty }
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 5aeeebd..1ee195b 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -431,7 +431,11 @@ impl<'t> Type<'t> {
 
   /// Check if this type is `void`.
   pub fn is_void(&self) -> bool {
-    matches!(self, Self::BuiltIn(BuiltInType::Void))
+    match self {
+      Self::BuiltIn(BuiltInType::Void) => true,
+      Self::Qualified { ty, .. } => ty.is_void(),
+      _ => false,
+    }
   }
 
   /// Check if this is a pointer type.
-- 
2.43.0


From 169a12bbcb84d2a8618fe032bb1250df51a5be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 56/73] fix: declare a void function without a return type

---
 src/ast/function_decl.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 5fea3ce..803e778 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -69,11 +69,16 @@ impl<'t> FunctionDecl<'t> {
         quote! { #arg: #ty }
       })
       .collect::<Vec<_>>();
-    let ret_ty = self.ret_ty.to_token_stream(ctx);
+    let ret_ty = if self.ret_ty.is_void() {
+      None
+    } else {
+      let ret_ty = self.ret_ty.to_token_stream(ctx);
+      Some(quote! { -> #ret_ty })
+    };
 
     tokens.append_all(quote! {
       extern "C" {
-        pub fn #name(#(#args),*) -> #ret_ty;
+        pub fn #name(#(#args),*) #ret_ty;
       }
     })
   }
-- 
2.43.0


From 1791374bdf0f8eb95f6567a854bcc9455f0d091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 57/73] fix: do not drop the generic arguments of a type

---
 src/ast/ty.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 1ee195b..10934b9 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -506,7 +506,10 @@ impl<'t> Type<'t> {
       syn::Type::Verbatim(ty) => {
         Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: ty.to_string().into() }), is_struct: false })
       },
-      syn::Type::Path(path_ty) => {
+      // Generic arguments cannot be represented.
+      syn::Type::Path(path_ty)
+        if path_ty.qself.is_none() && path_ty.path.segments.iter().all(|s| s.arguments.is_none()) =>
+      {
         if let Some(ty) = BuiltInType::from_rust_ty(path_ty, ffi_prefix) {
           return Ok(Self::BuiltIn(ty))
         }
-- 
2.43.0


From a6a73819c8374dfcaae21ce8ccf2c17cf443d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:53 +0000
Subject: [PATCH 58/73] fix: do not parse sizeof, type names and other keywords
 as names unless they are concatenated

---
 src/ast/identifier_expr.rs | 13 ++++++++-----
 src/ast/tokens.rs          | 15 ++++++++-------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 5b5565e..3db9e58 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -3,7 +3,7 @@ use std::{borrow::Cow, fmt::Debug};
 use nom::{
   branch::alt,
   character::complete::char,
-  combinator::{map, map_opt, value},
+  combinator::{map, map_opt, value, verify},
   multi::{fold_many0, many1},
   sequence::{delimited, preceded},
   IResult,
@@ -12,7 +12,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{
-  tokens::{macro_arg, macro_id, plain_id},
+  tokens::{is_keyword, macro_arg, macro_id},
   *,
 };
 use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
@@ -32,9 +32,9 @@ pub enum IdentifierExpr<'t> {
 impl<'t> IdentifierExpr<'t> {
   /// Parse identifier concatenation, e.g. `arg ## 2`.
   pub(crate) fn parse_concat_ident<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    let (tokens, id) = alt((map(macro_arg, Self::Arg), map(plain_id, Self::Plain)))(tokens)?;
+    let (tokens, id) = alt((map(macro_arg, Self::Arg), map(macro_id, Self::Plain)))(tokens)?;
 
-    fold_many0(
+    let parse_continuations = fold_many0(
       preceded(
         delimited(meta, punct("##"), meta),
         alt((
@@ -88,7 +88,10 @@ impl<'t> IdentifierExpr<'t> {
           Self::Concat(ids)
         },
       },
-    )(tokens)
+    );
+
+    // A keyword is only a name if it is concatenated with something else.
+    verify(parse_continuations, |id| !matches!(id, Self::Plain(id) if is_keyword(id)))(tokens)
   }
 
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
diff --git a/src/ast/tokens.rs b/src/ast/tokens.rs
index efdc505..d5e70a4 100644
--- a/src/ast/tokens.rs
+++ b/src/ast/tokens.rs
@@ -18,15 +18,16 @@ pub(crate) fn macro_id<'i, 't>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [Mac
   map_opt(take_one, |token| if let MacroToken::Identifier(id) = token { Some(id.clone()) } else { None })(tokens)
 }
 
-// Keywords which neither name a type nor can be an operand.
-const STATEMENT_KEYWORDS: &[&str] = &[
-  "__asm", "__asm__", "asm", "break", "case", "continue", "default", "do", "else", "for", "goto", "if", "return",
-  "switch", "while",
+// Keywords which cannot be the name of anything.
+const KEYWORDS: &[&str] = &[
+  "__asm", "__asm__", "asm", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum",
+  "extern", "float", "for", "goto", "if", "int", "long", "return", "short", "signed", "sizeof", "static", "struct",
+  "switch", "typedef", "union", "unsigned", "void", "volatile", "while",
 ];
 
-/// Parse an identifier which is not a keyword.
-pub(crate) fn plain_id<'i, 't>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Identifier<'t>> {
-  verify(macro_id, |id: &Identifier<'t>| !STATEMENT_KEYWORDS.contains(&id.as_str()))(tokens)
+/// Check whether an identifier is a keyword.
+pub(crate) fn is_keyword(id: &Identifier<'_>) -> bool {
+  KEYWORDS.contains(&id.as_str())
 }
 
 /// Create the name of a local variable which does not hide any of the given names.
-- 
2.43.0


From baff3715d158107b3129b4ee9db19e21990ec4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 59/73] fix: reject assignments in variable-like macros

---
 src/ast/binary_expr.rs | 5 +++++
 src/ast/unary_expr.rs  | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index cfa21d8..b10872c 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -233,6 +233,11 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
+    // Cannot assign to anything in variable macros, i.e. constants.
+    if ctx.is_variable_macro() && self.op.is_assignment() {
+      return Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
+    }
+
     // Must export as a macro in order to be able to assign to a macro argument.
     if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 1282f14..e29fe3d 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -70,6 +70,13 @@ impl<'t> UnaryExpr<'t> {
   {
     let mut ty = self.expr.finish(ctx)?;
 
+    // Cannot modify anything in variable macros, i.e. constants.
+    if ctx.is_variable_macro()
+      && matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec)
+    {
+      return Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
+    }
+
     // Must export as a macro in order to be able to modify a macro argument or take its address.
     if matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::AddrOf)
       && self.expr.is_arg_place()
-- 
2.43.0


From d1f44e7c3f8fbf1ddcb2167ebc523883c851f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 60/73] fix: recognize a Rust target without patch version or
 of a pre-release, for functions too

---
 src/context.rs   | 22 ++++++++++++++++++++--
 src/var_macro.rs | 19 -------------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 06d43ec..dfb6a59 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,3 +1,5 @@
+use semver::Version;
+
 use super::*;
 
 /// Type of a macro argument.
@@ -39,13 +41,29 @@ where
       arg_types: Default::default(),
       export_as_macro: false,
       global_context: cx,
-      generate_cstr: true,
-      static_lifetime_elision: true,
+      generate_cstr: supports_version(cx, 1, 59),
+      static_lifetime_elision: supports_version(cx, 1, 17),
       is_variable_macro: false,
     }
   }
 }
 
+/// Check if the Rust target is at least the given version.
+pub(crate) fn supports_version<C>(cx: &C, major: u64, minor: u64) -> bool
+where
+  C: CodegenContext,
+{
+  let target = if let Some(target) = cx.rust_target() { target } else { return true };
+
+  // The minor and patch versions are optional and a pre-release supports everything the release does.
+  let mut release = target.split(|c| c == '-' || c == '+').next().unwrap_or_default().to_owned();
+  while release.matches('.').count() < 2 {
+    release.push_str(".0");
+  }
+
+  Version::parse(&release).map(|version| version >= Version::new(major, minor, 0)).unwrap_or(true)
+}
+
 impl<'g, 't, C> LocalContext<'g, 't, C> {
   pub fn is_variadic(&self) -> bool {
     self.arg_names.last().map(|s| s.as_str()) == Some("...")
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 8a3c150..9048887 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -2,7 +2,6 @@ use std::{fmt::Debug, str};
 
 use proc_macro2::TokenStream;
 use quote::TokenStreamExt;
-use semver::{Version, VersionReq};
 
 use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBody, MacroToken};
 
@@ -54,24 +53,6 @@ impl<'t> VarMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.is_variable_macro = true;
 
-    ctx.static_lifetime_elision = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.17").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
-    ctx.generate_cstr = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.59").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
     let mut tokens = TokenStream::new();
 
     // Cannot generate non-expression variable-like macros.
-- 
2.43.0


From 0d6f21bb2fc11baaa646c182a0f3211c124552a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 61/73] fix: add the 'static lifetime to every kind of string
 for targets which need it

---
 src/ast/literal/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 1718880..12106e2 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -422,7 +422,7 @@ impl<'t> LitString<'t> {
 
         let byte_count = proc_macro2::Literal::usize_unsuffixed(bytes.len());
         let byte_string = proc_macro2::Literal::byte_string(&bytes);
-        let array_ty = quote! { &[u8; #byte_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u8; #byte_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, quote! { #byte_string }),
@@ -442,7 +442,7 @@ impl<'t> LitString<'t> {
 
         let word_count = proc_macro2::Literal::usize_unsuffixed(words.len());
         let word_array = quote! { &[#(#words),*] };
-        let array_ty = quote! { &[u16; #word_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u16; #word_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, word_array),
@@ -462,7 +462,7 @@ impl<'t> LitString<'t> {
 
         let dword_count = proc_macro2::Literal::usize_unsuffixed(dwords.len());
         let dword_array = quote! { &[#(#dwords),*] };
-        let array_ty = quote! { &[u32; #dword_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u32; #dword_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, dword_array),
@@ -489,7 +489,7 @@ impl<'t> LitString<'t> {
 
         let wchar_count = proc_macro2::Literal::usize_unsuffixed(wchars.len());
         let wchar_array = quote! { &[#(#wchars as #wchar_ty),*] };
-        let array_ty = quote! { &[#wchar_ty; #wchar_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [#wchar_ty; #wchar_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, wchar_array),
-- 
2.43.0


From 6a99cf9b81fcdd0fd3953ebcb91127b1f41d83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 62/73] fix: do not use addr_of_mut! for targets which do not
 support it

---
 src/ast/binary_expr.rs | 10 +++++-----
 src/ast/expr.rs        |  5 ++---
 src/ast/unary_expr.rs  | 14 ++++++--------
 src/codegen/mod.rs     | 15 ++++++++++++++-
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index b10872c..6433429 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -3,7 +3,7 @@ use std::fmt::Debug;
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext, MacroArgType};
+use crate::{codegen::quote_addr_of_mut, CodegenContext, LocalContext, MacroArgType};
 
 use super::{tokens::local_ident, BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
 
@@ -380,8 +380,8 @@ impl<'t> BinaryExpr<'t> {
 
         // The left-hand side must only be evaluated once.
         if bind_ptr {
-          let prefix = ctx.trait_prefix().into_iter();
-          return quote! { { let (ptr, value) = (#(#prefix::)*ptr::addr_of_mut!(#lhs), #rhs); *ptr #op value; *ptr } }
+          let ptr = quote_addr_of_mut(ctx, lhs);
+          return quote! { { let (ptr, value) = (#ptr, #rhs); *ptr #op value; *ptr } }
         }
 
         quote! { { #lhs #op #rhs; #lhs } }
@@ -390,8 +390,8 @@ impl<'t> BinaryExpr<'t> {
         if op == BinaryOp::MemberAccess {
           if let Some(ptr) = self.lhs.to_volatile_ptr(ctx) {
             let prefix = ctx.trait_prefix().into_iter();
-            let prefix2 = prefix.clone();
-            return quote! { #(#prefix::)*ptr::read_volatile(#(#prefix2::)*ptr::addr_of_mut!((*(#ptr)).#rhs)) }
+            let ptr = quote_addr_of_mut(ctx, quote! { (*(#ptr)).#rhs });
+            return quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
           }
         }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index b7b993d..8faf7b2 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -11,7 +11,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
-use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroToken};
+use crate::{codegen::{quote_addr_of_mut, quote_c_char_ptr}, CodegenContext, LocalContext, MacroToken};
 
 /// An expression.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -86,8 +86,7 @@ impl<'t> Expr<'t> {
       Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, rhs }) => {
         let ptr = lhs.to_volatile_ptr(ctx)?;
         let field = rhs.to_token_stream(ctx);
-        let prefix = ctx.trait_prefix().into_iter();
-        Some(quote! { #(#prefix::)*ptr::addr_of_mut!((*(#ptr)).#field) })
+        Some(quote_addr_of_mut(ctx, quote! { (*(#ptr)).#field }))
       },
       _ => None,
     }
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index e29fe3d..a2fd890 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -1,7 +1,7 @@
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext};
+use crate::{codegen::quote_addr_of_mut, CodegenContext, LocalContext};
 
 use super::{tokens::local_ident, Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
 
@@ -177,8 +177,8 @@ impl<'t> UnaryExpr<'t> {
 
         // The operand must only be evaluated once.
         let (bind_ptr, raw_expr) = if self.expr.changes_with_assignment() {
-          let prefix = ctx.trait_prefix().into_iter();
-          (Some(quote! { let ptr = #(#prefix::)*ptr::addr_of_mut!(#raw_expr); }), quote! { *ptr })
+          let ptr = quote_addr_of_mut(ctx, raw_expr);
+          (Some(quote! { let ptr = #ptr; }), quote! { *ptr })
         } else {
           (None, raw_expr)
         };
@@ -227,9 +227,8 @@ impl<'t> UnaryExpr<'t> {
 
             // The operand must only be evaluated once.
             let (bind_ptr, raw_expr, ptr) = if expr.changes_with_assignment() {
-              let prefix = ctx.trait_prefix().into_iter();
-              let bind_ptr = quote! { let ptr = #(#prefix::)*ptr::addr_of_mut!(#raw_expr); };
-              (Some(bind_ptr), quote! { *ptr }, quote! { (*ptr) })
+              let ptr = quote_addr_of_mut(ctx, raw_expr);
+              (Some(quote! { let ptr = #ptr; }), quote! { *ptr }, quote! { (*ptr) })
             } else if expr_prec > 1 {
               (None, raw_expr.clone(), quote! { (#raw_expr) })
             } else {
@@ -259,8 +258,7 @@ impl<'t> UnaryExpr<'t> {
           return quote! { (#ptr) }
         }
 
-        let trait_prefix = ctx.trait_prefix().into_iter();
-        quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
+        quote_addr_of_mut(ctx, raw_expr)
       },
     }
   }
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index abd96ae..3abfd8b 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1,6 +1,6 @@
 use quote::quote;
 
-use crate::{CodegenContext, LocalContext};
+use crate::{context::supports_version, CodegenContext, LocalContext};
 
 /// Quote the given type as a static reference, eliding the `'static` lifetime if the Rust target supports it.
 pub(crate) fn quote_static_ref<C: CodegenContext>(
@@ -14,6 +14,19 @@ pub(crate) fn quote_static_ref<C: CodegenContext>(
   }
 }
 
+/// Quote a pointer to the given place, using a reference if the Rust target does not support `addr_of_mut!`.
+pub(crate) fn quote_addr_of_mut<C: CodegenContext>(
+  ctx: &LocalContext<'_, '_, C>,
+  place: proc_macro2::TokenStream,
+) -> proc_macro2::TokenStream {
+  if supports_version(ctx, 1, 51) {
+    let trait_prefix = ctx.trait_prefix().into_iter();
+    quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#place) }
+  } else {
+    quote! { (&mut #place as *mut _) }
+  }
+}
+
 /// Quote the given bytes array as a `c_char` pointer.
 pub(crate) fn quote_c_char_ptr<C: CodegenContext>(
   ctx: &LocalContext<'_, '_, C>,
-- 
2.43.0


From eb62d3928722f63a176ef5ba337e7ade861f5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 63/73] fix: reject inline assembly for targets which do not
 support it

---
 src/ast/asm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index b99ff56..d99a577 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -15,7 +15,7 @@ use super::{
   tokens::{id, meta, parenthesized, punct},
   Expr, LitString, Type,
 };
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{context::supports_version, CodegenContext, LocalContext, MacroToken};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Dir {
@@ -276,6 +276,10 @@ impl<'t> Asm<'t> {
   where
     C: CodegenContext,
   {
+    if !supports_version(ctx, 1, 59) {
+      return Err(crate::CodegenError::UnsupportedExpression("inline assembly".to_owned()))
+    }
+
     for (_, _, output) in self.outputs.iter_mut() {
       output.finish(ctx)?;
 
-- 
2.43.0


From c6763a93e372bfc6fb4de99696cdf1daa4932d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 64/73] fix: reject conditions in constants for targets which
 do not support them

---
 src/ast/ternary_expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 1976e89..564fdee 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -1,7 +1,7 @@
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext};
+use crate::{context::supports_version, CodegenContext, LocalContext};
 
 use super::{Expr, Type};
 
@@ -25,6 +25,10 @@ impl<'t> TernaryExpr<'t> {
   where
     C: CodegenContext,
   {
+    if ctx.is_variable_macro() && !supports_version(ctx, 1, 46) {
+      return Err(crate::CodegenError::UnsupportedExpression("condition in variable-like macro".to_owned()))
+    }
+
     self.condition.finish_condition(ctx)?;
 
     let lhs_ty = self.if_branch.finish(ctx)?;
-- 
2.43.0


From dc05262557bd2ce47bfb2c33eaac4c8a7c489193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 65/73] fix: do not call str::as_bytes in a constant for
 targets which do not support it

---
 src/codegen/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 3abfd8b..d9d7fe9 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -36,6 +36,11 @@ pub(crate) fn quote_c_char_ptr<C: CodegenContext>(
 
   let reference_ty = quote_static_ref(ctx, quote! { [u8] });
 
+  // A constant needs a `const fn`.
+  if !supports_version(ctx, 1, 39) {
+    return quote! { (#bytes.as_ptr() as *const #(#ffi_prefix::)*c_char) }
+  }
+
   quote! {
     {
       const BYTES: #reference_ty = #bytes.as_bytes();
-- 
2.43.0


From fc3a95e494f50a7a33c6c97c8efe5294788f10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 66/73] fix: parenthesize string literals which a cast or
 operator in a function-like macro starts with

---
 src/ast/binary_expr.rs | 2 +-
 src/ast/cast.rs        | 2 +-
 src/ast/expr.rs        | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 6433429..1ee7c72 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -333,7 +333,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     // Ensure that a block on the left side is not parsed as a statement.
-    if self.lhs.is_block() {
+    if self.lhs.is_block(ctx) {
       lhs_parens = true;
     }
 
diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index 9c0bff5..36ca516 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -91,7 +91,7 @@ impl<'t> Cast<'t> {
             },
             _ => {
               let mut expr = expr.to_token_stream(ctx);
-              if expr_prec > prec || self.expr.is_block() {
+              if expr_prec > prec || self.expr.is_block(ctx) {
                 expr = quote! { (#expr) };
               }
               expr
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 8faf7b2..0ec8021 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -132,9 +132,14 @@ impl<'t> Expr<'t> {
   }
 
   /// Whether the generated expression starts with a block, i.e. would be a statement on its own.
-  pub(crate) const fn is_block(&self) -> bool {
+  pub(crate) fn is_block<C>(&self, ctx: &LocalContext<'_, 't, C>) -> bool
+  where
+    C: CodegenContext,
+  {
     match self {
       Self::Ternary(_) => true,
+      // Only the body of a function-like macro is generated as a statement.
+      Self::Literal(Lit::String(_)) | Self::Stringify(_) | Self::ConcatString(_) => !ctx.is_variable_macro(),
       Self::Unary(expr) => matches!(expr.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
       Self::Binary(expr) => expr.op.is_assignment(),
       _ => false,
-- 
2.43.0


From d026db0bdaaf73ea963f3cd4014ff0717e98be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 67/73] fix: reject casts to void in variable-like macros

---
 src/ast/cast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index 36ca516..f24c7f7 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -29,6 +29,9 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
+    if ctx.is_variable_macro() && self.ty.is_void() {
+      return Err(crate::CodegenError::UnsupportedExpression("cast to void in variable-like macro".to_owned()))
+    }
     if self.ty.clone().unqualified() == Type::BuiltIn(BuiltInType::Bool) {
       // Cannot cast anything other than `bool` to `bool`.
       self.expr.finish_condition(ctx)?;
-- 
2.43.0


From a7b35316a507342c333ebf75b79ac165f067de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 68/73] fix: do not resolve the name of a member as a variable

---
 src/ast/binary_expr.rs | 11 +++++++++--
 src/ast/expr.rs        |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 1ee7c72..1c2e189 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -224,7 +224,11 @@ impl<'t> BinaryExpr<'t> {
     };
 
     let mut lhs_ty = self.lhs.finish(ctx)?;
-    let mut rhs_ty = self.rhs.finish(ctx)?;
+    let mut rhs_ty = match &mut *self.rhs {
+      // The name of a member does not refer to a variable.
+      Expr::Var(Var { name }) if self.op == BinaryOp::MemberAccess => name.finish(ctx)?,
+      rhs => rhs.finish(ctx)?,
+    };
 
     // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
@@ -314,7 +318,10 @@ impl<'t> BinaryExpr<'t> {
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
-    let mut rhs = self.rhs.to_token_stream(ctx);
+    let mut rhs = match &*self.rhs {
+      Expr::Var(Var { name }) if op == BinaryOp::MemberAccess => name.to_token_stream(ctx),
+      rhs => rhs.to_token_stream(ctx),
+    };
 
     let (lhs_prec, _) = self.lhs.precedence();
     let (prec, assoc) = self.precedence();
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 0ec8021..5428473 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -85,7 +85,10 @@ impl<'t> Expr<'t> {
       Self::Unary(expr) => expr.to_volatile_ptr(ctx),
       Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, rhs }) => {
         let ptr = lhs.to_volatile_ptr(ctx)?;
-        let field = rhs.to_token_stream(ctx);
+        let field = match &**rhs {
+          Self::Var(Var { name }) => name.to_token_stream(ctx),
+          rhs => rhs.to_token_stream(ctx),
+        };
         Some(quote_addr_of_mut(ctx, quote! { (*(#ptr)).#field }))
       },
       _ => None,
-- 
2.43.0


From 05e0d418231a89a9c4693f49301337dab70fcfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 69/73] fix: a macro argument used as a type is a type, not an
 expression

---
 src/ast/ty.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 10934b9..7187760 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -11,7 +11,7 @@ use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// A built-in type.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -456,6 +456,14 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => {
         name.finish(ctx)?;
 
+        if let IdentifierExpr::Arg(arg) = name {
+          // A type cannot be passed to a function.
+          let arg_type = ctx.arg_type_mut(arg.index());
+          if *arg_type != MacroArgType::Ident {
+            *arg_type = MacroArgType::Ty;
+          }
+        }
+
         if let IdentifierExpr::Plain(ref id) = name {
           if let Some(ty) = ctx.resolve_ty(id.as_str()) {
             *self = Self::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?;
-- 
2.43.0


From eac16d1ff698573c7191606ff63e663293343115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 70/73] fix: do not make a type or member argument an
 expression by stringifying it

---
 src/ast/function_call.rs | 4 ++--
 src/ast/stringify.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 2dd4532..8da379c 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -61,14 +61,14 @@ impl<'t> FunctionCall<'t> {
           "__builtin_offsetof" if self.args.len() == 2 => {
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[0] {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if *arg_type != MacroArgType::Ident {
                 *arg_type = MacroArgType::Ty;
               }
             }
 
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[1] {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if *arg_type != MacroArgType::Ident {
                 *arg_type = MacroArgType::Tt;
               }
             }
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index 4393dd3..37487b4 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -44,7 +44,7 @@ impl<'t> Stringify<'t> {
     match &mut *self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
         let arg_ty = ctx.arg_type_mut(arg.index());
-        if *arg_ty != MacroArgType::Ident {
+        if !matches!(*arg_ty, MacroArgType::Ident | MacroArgType::Ty | MacroArgType::Tt) {
           *arg_ty = MacroArgType::Expr;
         }
       },
-- 
2.43.0


From ab2c4cbd0e332c64ac345e8d9912598da7609586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 71/73] fix: convert arguments of functions to the type of the
 parameter

---
 src/ast/function_call.rs | 56 ++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 8da379c..72044a5 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -44,13 +44,29 @@ impl<'t> FunctionCall<'t> {
           ty = Some(Type::from_rust_ty(&known_ret_ty, ffi_prefix.as_ref())?);
 
           for (arg, known_arg_type) in self.args.iter_mut().zip(known_args.iter()) {
-            // If the current argument to this function is a macro argument,
-            // we can infer the type of the macro argument.
-            if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = arg {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
-                *arg_type = MacroArgType::Known(Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?);
-              }
+            let known_arg_type = Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?;
+
+            match arg {
+              // If the current argument to this function is a macro argument,
+              // we can infer the type of the macro argument.
+              Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
+                let arg_type = ctx.arg_type_mut(arg.index());
+                if *arg_type == MacroArgType::Unknown {
+                  *arg_type = MacroArgType::Known(known_arg_type);
+                }
+              },
+              // An integer literal cannot be used where a floating-point number is expected.
+              Expr::Literal(lit @ Lit::Int(_)) => {
+                if let Lit::Int(LitInt { value, .. }) = *lit {
+                  match known_arg_type {
+                    Type::BuiltIn(BuiltInType::Float) => *lit = Lit::Float(LitFloat::Float(value as f32)),
+                    Type::BuiltIn(BuiltInType::Double) => *lit = Lit::Float(LitFloat::Double(value as f64)),
+                    Type::BuiltIn(BuiltInType::LongDouble) => *lit = Lit::Float(LitFloat::LongDouble(value as f64)),
+                    _ => (),
+                  }
+                }
+              },
+              _ => (),
             }
           }
         }
@@ -90,7 +106,14 @@ impl<'t> FunctionCall<'t> {
       name => (name.to_token_stream(ctx), true),
     };
 
-    let args = self.args.iter().map(|arg| match arg {
+    let known_arg_types = match &self.name {
+      IdentifierExpr::Plain(name) => ctx.function(name.as_str()).map(|(known_args, _)| known_args).unwrap_or_default(),
+      _ => Vec::new(),
+    };
+    let known_arg_types = if known_arg_types.len() == self.args.len() { known_arg_types } else { Vec::new() };
+    let mut known_arg_types = known_arg_types.into_iter();
+
+    let args = self.args.iter().map(|arg| (arg, known_arg_types.next())).map(|(arg, known_arg_type)| match arg {
       // Calling `.into()` on a null-pointer doesn't work.
       arg @ Expr::Cast(Cast { ty, expr })
         if ty.is_ptr() && matches!(&**expr, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) =>
@@ -106,9 +129,11 @@ impl<'t> FunctionCall<'t> {
         let arg = arg.to_token_stream(ctx);
         quote! { #arg }
       },
-      // Exporting as a function means we inferred the types of the macro arguments,
-      // so no `.into()` is needed in this case.
-      arg @ Expr::Var(Var { name: IdentifierExpr::Arg(_) }) if !ctx.export_as_macro => {
+      // Exporting as a function means we know the types of the macro arguments,
+      // so no `.into()` is needed in this case, unless it is the type of another function's argument.
+      arg @ Expr::Var(Var { name: IdentifierExpr::Arg(arg2) })
+        if !ctx.export_as_macro && has_type(ctx.arg_type(arg2.index()), known_arg_type, ctx.ffi_prefix()) =>
+      {
         let arg = arg.to_token_stream(ctx);
         quote! { #arg }
       },
@@ -127,3 +152,12 @@ impl<'t> FunctionCall<'t> {
     })
   }
 }
+
+/// Check whether a macro argument can be passed to a function as is.
+fn has_type(arg_type: &MacroArgType, known_arg_type: Option<syn::Type>, ffi_prefix: Option<syn::Path>) -> bool {
+  match (arg_type, known_arg_type.map(|ty| Type::from_rust_ty(&ty, ffi_prefix.as_ref()))) {
+    // Pointers are coerced.
+    (MacroArgType::Known(arg_type), Some(Ok(ty))) => *arg_type == ty || (arg_type.is_ptr() && ty.is_ptr()),
+    _ => true,
+  }
+}
-- 
2.43.0


From 74eb7a88003b44fbba0ea73920ded51af8ecf6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 72/73] fix: recognize primitive types when there is a prefix
 for C types

---
 src/ast/ty.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 7187760..a3b20f0 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -81,6 +81,27 @@ impl BuiltInType {
   fn from_rust_ty(ty: &syn::TypePath, ffi_prefix: Option<&syn::Path>) -> Option<Self> {
     match ty {
       syn::TypePath { qself: None, path: syn::Path { leading_colon, segments } } => {
+        // Primitive types do not have a prefix.
+        if leading_colon.is_none() && segments.len() == 1 {
+          let id = &segments[0].ident;
+
+          if id == "f32" {
+            return Some(Self::Float)
+          } else if id == "f64" {
+            return Some(Self::Double)
+          } else if id == "f128" {
+            return Some(Self::LongDouble)
+          } else if id == "bool" {
+            return Some(Self::Bool)
+          } else if id == "u8" {
+            return Some(Self::Char8T)
+          } else if id == "u16" {
+            return Some(Self::Char16T)
+          } else if id == "u32" {
+            return Some(Self::Char32T)
+          }
+        }
+
         let mut it = segments.iter();
 
         if let Some(ffi_prefix) = ffi_prefix {
@@ -102,26 +123,12 @@ impl BuiltInType {
           return None
         }
 
-        Some(if id == "f32" {
-          Self::Float
-        } else if id == "f64" {
-          Self::Double
-        } else if id == "f128" {
-          Self::LongDouble
-        } else if id == "bool" {
-          Self::Bool
-        } else if id == "c_char" {
+        Some(if id == "c_char" {
           Self::Char
         } else if id == "c_schar" {
           Self::SChar
         } else if id == "c_uchar" {
           Self::UChar
-        } else if id == "u8" {
-          Self::Char8T
-        } else if id == "u16" {
-          Self::Char16T
-        } else if id == "u32" {
-          Self::Char32T
         } else if id == "c_short" {
           Self::Short
         } else if id == "c_ushort" {
-- 
2.43.0


From 57ea42604844bec1dd70914a43adcfa7cb12344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:43 +0000
Subject: [PATCH 73/73] fix: recognize c_float and c_double as types of the
 caller

---
 src/ast/ty.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index a3b20f0..ff57609 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -145,6 +145,10 @@ impl BuiltInType {
           Self::LongLong
         } else if id == "c_ulonglong" {
           Self::ULongLong
+        } else if id == "c_float" {
+          Self::Float
+        } else if id == "c_double" {
+          Self::Double
         } else if id == "c_size_t" {
           Self::SizeT
         } else if id == "c_ssize_t" {
-- 
2.43.0

