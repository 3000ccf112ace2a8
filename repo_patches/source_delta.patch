From ef4ab295c54eb4244658022a1aa41621db9c101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:24 +0000
Subject: [PATCH 01/23] fix: report expressions without a value as errors
 rather than panicking

Division by zero and decimal overflow in a numeric expression panicked
during parsing; they are now parse errors at the expression.
---
 src/parsers.rs |  9 ++++++-
 src/types.rs   | 72 ++++++++++++++++++++++++++++++++++----------------
 2 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..038c5bc 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,14 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().validate(|expr, e, emitter| {
+        // validate allows us to emit an error for an expression without a value but still consume the input,
+        // but we have to return a dummy value
+        ExprValue::evaluate(expr).unwrap_or_else(|error| {
+            emitter.emit(Rich::custom(e.span(), error.to_string()));
+            ExprValue::from(Expr::Value(Decimal::ZERO))
+        })
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 59919e0..6116110 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2217,6 +2217,13 @@ impl ExprValue {
     pub fn expr(&self) -> &Expr {
         &self.expr
     }
+
+    /// Evaluate the `Expr` rounding to the max scale it contains.
+    pub(crate) fn evaluate(expr: Expr) -> Result<Self, ExprError> {
+        let (mut value, scale) = expr.evaluate()?;
+        value.rescale(scale);
+        Ok(Self { value, expr })
+    }
 }
 
 impl PartialEq<Decimal> for ExprValue {
@@ -2227,13 +2234,31 @@ impl PartialEq<Decimal> for ExprValue {
 
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
+    ///
+    /// Panics if the expression has no representable value.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
-        value.rescale(scale);
-        Self { value, expr }
+        Self::evaluate(expr).unwrap_or_else(|e| panic!("{}", e))
+    }
+}
+
+/// Error type for evaluation of an [Expr].
+#[derive(PartialEq, Eq, Clone, Copy, Debug)]
+pub(crate) enum ExprError {
+    DivisionByZero,
+    OutOfRange,
+}
+
+impl Display for ExprError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.write_str(match self {
+            ExprError::DivisionByZero => "division by zero",
+            ExprError::OutOfRange => "number out of range",
+        })
     }
 }
 
+impl std::error::Error for ExprError {}
+
 //
 impl ElementType<'static> for ExprValue {
     fn element_type(&self) -> &'static str {
@@ -2260,32 +2285,33 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
+    fn evaluate(&self) -> Result<(Decimal, u32), ExprError> {
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Result<(Decimal, u32), ExprError>
         where
-            F: Fn(Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
-        }
-
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
-        where
-            F: Fn(Decimal, Decimal) -> Decimal,
-        {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            let d = op(d1, d2).ok_or(ExprError::OutOfRange)?;
+            Ok((d, max(s1, s2)))
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
-            Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
+            Value(d) => Ok((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => {
+                let (d1, s1) = e1.evaluate()?;
+                let (d2, s2) = e2.evaluate()?;
+                if d2.is_zero() {
+                    return Err(ExprError::DivisionByZero);
+                }
+                let d = d1.checked_div(d2).ok_or(ExprError::OutOfRange)?;
+                Ok((d, max(s1, s2)))
+            }
+            Neg(e1) => e1.evaluate().map(|(d, s)| (-d, s)),
             Paren(e) => e.evaluate(),
         }
     }
-- 
2.43.0


From d08378d292ea3d71d504712aa3b34840899126c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 02/23] fix: reject dates and times in non-ASCII digits rather
 than panicking

---
 src/lexer.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..8a01bc6 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -671,26 +671,31 @@ impl<'a, I: Iterator<Item = RangedToken<'a>>> EolIndentHandlerIteratorAdaptor<'a
 
 fn parse_date(s: &str) -> Result<Date, LexerError> {
     let mut date = s.split(&['-', '/']);
-    let year = date.by_ref().next().unwrap().parse::<i32>().unwrap();
-    let month = date.by_ref().next().unwrap().parse::<u8>().unwrap();
+    let year = parse_digits::<i32>(date.next())?;
+    let month = parse_digits::<u8>(date.next())?;
     let month = Month::try_from(month).or(Err(LexerError::new("month out of range")))?;
-    let day = date.by_ref().next().unwrap().parse::<u8>().unwrap();
+    let day = parse_digits::<u8>(date.next())?;
     Date::from_calendar_date(year, month, day).or(Err(LexerError::new("date out of range")))
 }
 
 fn parse_time(s: &str) -> Result<Time, LexerError> {
     let mut time = s.split(':');
-    let hour = time.by_ref().next().unwrap().parse::<u8>().unwrap();
-    let min = time.by_ref().next().unwrap().parse::<u8>().unwrap();
-    let sec = time
-        .by_ref()
-        .next()
-        .map(|s| s.parse::<u8>().unwrap())
-        .unwrap_or(0);
+    let hour = parse_digits::<u8>(time.next())?;
+    let min = parse_digits::<u8>(time.next())?;
+    let sec = match time.next() {
+        Some(s) => parse_digits::<u8>(Some(s))?,
+        None => 0,
+    };
 
     Time::from_hms(hour, min, sec).or(Err(LexerError::new("time out of range")))
 }
 
+// Note that `\d` in the token regexes matches any Unicode decimal digit, not all of which can be parsed.
+fn parse_digits<T: FromStr>(s: Option<&str>) -> Result<T, LexerError> {
+    s.and_then(|s| s.parse::<T>().ok())
+        .ok_or_else(|| LexerError::new("invalid digit"))
+}
+
 // Unescape string literal using the inverse of std::ascii::escape_default
 // https://doc.rust-lang.org/std/ascii/fn.escape_default.html
 fn unescape_string_literal<'a>(s: &'a str) -> Result<Cow<'a, str>, LexerError> {
-- 
2.43.0


From 0d9a874f37d2714c3f3a8d66d29c7a28381ba190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:15 +0000
Subject: [PATCH 03/23] fix: currency validation counts characters rather than
 bytes

Constructing a currency from non-ASCII text panicked, for example by way of
the operating_currency option.
---
 src/types.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 6116110..ec292f3 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -9,7 +9,6 @@ use std::{
     collections::{HashMap, HashSet, hash_map},
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
-    iter::empty,
     mem::swap,
     ops::Deref,
 };
@@ -1691,16 +1690,8 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         } else {
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
-            } else {
-                empty::<char>().collect()
-            };
-            let last = if s.len() > 1 {
-                chars.next().unwrap()
-            } else {
-                first
-            };
+            let last = chars.next_back().unwrap_or(first);
+            let intermediate: Vec<char> = chars.collect();
 
             use CurrencyErrorKind::*;
             if !Currency::is_valid_initial(&first) {
-- 
2.43.0


From 5ecf51dfe1fe864b9c5fa79f0a1bf1bc467fcfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:25 +0000
Subject: [PATCH 04/23] fix: trim trailing whitespace on a character boundary

The trimmed end was one byte after the start of the last character, inside
that character if it is multi-byte.
---
 src/trim.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..cede0a8 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,9 +3,11 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
-        None => end,
+    let trimmed = content[start..end].trim_end();
+    if trimmed.is_empty() {
+        end
+    } else {
+        start + trimmed.len()
     }
 }
 
-- 
2.43.0


From bd3c07665babfd6fffe91859b1d73ad0fef3ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 05/23] fix: character indices of a synthetic fragment start at
 its byte offset

---
 src/sources.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 589d251..7081d2a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -486,12 +486,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
-            char_indices.extend(
-                content_fragment
-                    .char_indices()
-                    .map(|(i, _)| i + original_len),
-            );
+            char_indices.extend(content_fragment.char_indices().map(|(i, _)| i + start));
             content.push_str(content_fragment);
 
             span
-- 
2.43.0


From d3af5f86d4ccd7f465d8097169eadead59abd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 06/23] fix: synthetic sources resolve spans of an inline
 source without file name

as documented, and as BeancountSources does.
---
 src/sources.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 7081d2a..ee2ad6a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -556,7 +556,11 @@ impl<'a> SyntheticSources<'a> {
     /// Resolve the span into filename, line number range, and spanned content.
     /// Filename will be present unless the sources were created from an inline string.
     pub fn resolve_span<'s>(&'s self, span: &Span) -> SpannedSource<'s> {
-        resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        if self.is_synthetic(span) {
+            resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        } else {
+            self.sources.resolve_span(span)
+        }
     }
 
     pub fn error_source_text<'s, K>(&'s self, error_or_warning: &ErrorOrWarning<K>) -> &'s str
@@ -568,9 +572,12 @@ impl<'a> SyntheticSources<'a> {
         &source_content[byte_span.start..byte_span.end]
     }
 
+    fn is_synthetic(&self, span: &Span) -> bool {
+        span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
+    }
+
     fn get_adjusted_source(&self, span: Span) -> (&str, &str, Span, Span) {
-        if span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
-        {
+        if self.is_synthetic(&span) {
             let source_id_str = self.source_id_strings[span.source - self.base_id].as_str();
 
             let (_, content, content_char_indices) = self.content.get(source_id_str).unwrap();
-- 
2.43.0


From d4ccf0df84488e838932defeae689e0cfcdc1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 07/23] fix: parse included files in a fixed order

Parser options set in one file apply to the files parsed after it, so the
result depended on the iteration order of a HashMap.
---
 src/lib.rs     |  4 ++--
 src/sources.rs | 27 ++++++++++++++++-----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..8b0d7ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -206,8 +206,8 @@ type ParseDeclarationsResult<'t> = (
 impl<'s> BeancountParser<'s> {
     /// Create a `BeancountParser` from `BeancountSources` read from all input files.
     pub fn new(sources: &'s BeancountSources) -> Self {
-        // `content_iter()` walks a `HashMap`, so iteration order is not guaranteed.
-        // We must index by `SourceId` rather than relying on iteration order.
+        // Sources which couldn't be read are missing from `content_iter()`,
+        // so we must index by `SourceId` rather than relying on position.
         let mut tokenized_sources = vec![Vec::new(); sources.num_sources()];
 
         for (source_id, _path, content) in sources.content_iter() {
diff --git a/src/sources.rs b/src/sources.rs
index ee2ad6a..49ed103 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -349,23 +349,28 @@ impl BeancountSources {
         .collect()
     }
 
+    /// Content in order of `SourceId`, so that whatever is threaded through the parsing of
+    /// successive files doesn't depend on the iteration order of a `HashMap`.
     pub(crate) fn content_iter(&self) -> impl Iterator<Item = (SourceId, Option<&Path>, &str)> {
+        let mut included = self
+            .included_content
+            .iter()
+            .filter_map(|(pathbuf, included_source)| {
+                if let IncludedSource::Content(source_id, content, _) = included_source {
+                    Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
+                } else {
+                    None
+                }
+            })
+            .collect::<Vec<_>>();
+        included.sort_by_key(|(source_id, _, _)| Into::<usize>::into(*source_id));
+
         once((
             self.root_source_id,
             self.root_path.as_deref(),
             self.root_content.as_str(),
         ))
-        .chain(
-            self.included_content
-                .iter()
-                .filter_map(|(pathbuf, included_source)| {
-                    if let IncludedSource::Content(source_id, content, _) = included_source {
-                        Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
-                    } else {
-                        None
-                    }
-                }),
-        )
+        .chain(included)
     }
 
     /// Number of real sources, excluding synthetic ones
-- 
2.43.0


From e30bd5f95074bf8d955fc98956ab65b8c14b3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:13 +0000
Subject: [PATCH 08/23] fix: message of duplicate include doesn't depend on
 hash order

---
 src/lib.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b0d7ef..c2c45a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,6 +83,7 @@
 //!```
 
 use chumsky::prelude::{Input, Parser};
+use itertools::Itertools;
 use lexer::{lex, Token};
 use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
@@ -335,26 +336,23 @@ fn fmt_include_context<'s>(
     tags: &HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
 ) -> String {
-    let tags_s = itertools::intersperse(
-        tags.keys().map(|tag| tag.item().to_string()),
-        " ".to_string(),
-    )
-    .collect::<String>();
-    let meta_s = itertools::intersperse(
-        meta_key_values.iter().map(|(k, v)| {
+    // sorted, so the message doesn't depend on the iteration order of a HashMap
+    let tags_s = tags
+        .keys()
+        .map(|tag| tag.item().to_string())
+        .sorted()
+        .join(" ");
+    let meta_s = meta_key_values
+        .iter()
+        .map(|(k, v)| {
             format!(
                 "{}: [{}]",
                 k.item(),
-                itertools::intersperse(
-                    v.iter().map(|(_, v)| v.item().to_string()),
-                    " ".to_string()
-                )
-                .collect::<String>()
+                v.iter().map(|(_, v)| v.item().to_string()).join(" ")
             )
-        }),
-        " ".to_string(),
-    )
-    .collect::<String>();
+        })
+        .sorted()
+        .join(" ");
     format!("{} {}", tags_s, meta_s)
 }
 
-- 
2.43.0


From eba712a6bd0552f4afcdf7920ab6409383d9fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:29 +0000
Subject: [PATCH 09/23] fix: process pragmas iteratively

A few thousand consecutive pragmas overflowed the stack.
---
 src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2c45a3..d688d4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,7 @@ use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
 use std::{
     collections::{HashMap, VecDeque},
+    ops::ControlFlow,
     path::{Path, PathBuf},
 };
 
@@ -430,6 +431,19 @@ impl<'s> Iterator for PragmaProcessor<'s> {
     type Item = Spanned<Directive<'s>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // not by recursion, as there may be any number of pragmas before the next directive
+        loop {
+            if let ControlFlow::Break(directive) = self.process_declaration() {
+                return directive;
+            }
+        }
+    }
+}
+
+impl<'s> PragmaProcessor<'s> {
+    /// Process one declaration, returning `Break` for a directive or when there are no more,
+    /// or `Continue` if something else was consumed.
+    fn process_declaration(&mut self) -> ControlFlow<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
             Some(declaration) => {
                 match declaration.item {
@@ -437,7 +451,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         directive.metadata.augment_tags(&self.tags);
                         directive.metadata.augment_key_values(&self.meta_key_values);
 
-                        Some(spanned(directive, declaration.span))
+                        ControlFlow::Break(Some(spanned(directive, declaration.span)))
                     }
 
                     Declaration::Pragma(pragma) => {
@@ -649,7 +663,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         }
 
                         // having silently consumed a pragma, go on to the next declaration
-                        self.next()
+                        ControlFlow::Continue(())
                     }
                 }
             }
@@ -657,9 +671,9 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                 Some((path, declarations)) => {
                     self.current_path = path;
                     self.current_declarations = declarations;
-                    self.next()
+                    ControlFlow::Continue(())
                 }
-                None => None,
+                None => ControlFlow::Break(None),
             },
         }
     }
-- 
2.43.0


From ab8c319e6cb581976448da76f46fbb5f501d39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 10/23] fix: find the content of an included file by its source
 id

Resolving or reporting a span panicked if the path of the file is not UTF-8.
---
 src/sources.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 49ed103..ef390a2 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -38,6 +38,7 @@ pub struct BeancountSources {
     root_content_char_indices: Vec<usize>,
     included_globs: HashMap<PathBuf, IncludedGlob>,
     included_content: HashMap<PathBuf, IncludedSource>,
+    included_paths: Vec<PathBuf>,   // indexed by SourceId, less one for the root
     source_id_strings: Vec<String>, // indexed by SourceId
 }
 
@@ -67,6 +68,7 @@ impl BeancountSources {
             .map(|included| resolve_included_path(root_path.as_ref(), included.as_ref()))
             .collect::<VecDeque<_>>();
 
+        let mut included_paths = Vec::new();
         let mut included_globs = HashMap::new();
         let mut included_content: HashMap<PathBuf, IncludedSource> = HashMap::new();
 
@@ -119,6 +121,7 @@ impl BeancountSources {
                                         let source_id = SourceId::from(source_id_strings.len());
                                         source_id_strings
                                             .push(globbed_include.to_string_lossy().into());
+                                        included_paths.push(globbed_include.clone());
 
                                         let included_source = read(&globbed_include).map_or_else(
                                             |e| {
@@ -184,6 +187,7 @@ impl BeancountSources {
             root_content_char_indices,
             included_globs,
             included_content,
+            included_paths,
             source_id_strings,
         }
     }
@@ -309,8 +313,9 @@ impl BeancountSources {
         let empty_char_indices = Vec::default();
         let (source_content, source_content_char_indices) = if source_id == self.root_source_id {
             (self.root_content.as_str(), &self.root_content_char_indices)
-        } else if let IncludedSource::Content(_, content, content_char_indices) =
-            self.included_content.get(Path::new(source_id_str)).unwrap()
+        } else if let Some(IncludedSource::Content(_, content, content_char_indices)) =
+            // not by source_id_str, which is lossy if the path is not UTF-8
+            self.included_content.get(&self.included_paths[safe_span.source - 1])
         {
             (content.as_str(), content_char_indices)
         } else {
-- 
2.43.0


From de35ee245390c1cdda1cf2c911c5b0af55b9b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:06 +0000
Subject: [PATCH 11/23] fix: display tolerance of a balance before the
 currency, as it is parsed

---
 src/types.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index ec292f3..c11dc77 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2441,7 +2441,13 @@ impl<'a> AmountWithTolerance<'a> {
 impl Display for AmountWithTolerance<'_> {
     fn fmt(&self, format: &mut Formatter<'_>) -> fmt::Result {
         if let Some(tolerance) = self.tolerance {
-            write!(format, "{} ~ {}", &self.amount, tolerance)
+            write!(
+                format,
+                "{} ~ {} {}",
+                self.amount.number(),
+                tolerance,
+                self.amount.currency()
+            )
         } else {
             write!(format, "{}", &self.amount)
         }
-- 
2.43.0


From 864789a61fc3c674b7d5740e9095aa676331a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 12/23] fix: display a total price of a posting as it is
 parsed, with @@

---
 src/types.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index c11dc77..d94aa8d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1784,7 +1784,16 @@ impl Display for Posting<'_> {
         simple_format(f, &self.amount, Some(" "))?;
         simple_format(f, self.currency, Some(" "))?;
         simple_format(f, &self.cost_spec, Some(" "))?;
-        simple_format(f, &self.price_annotation, Some(" @ "))?;
+        if let Some(price_annotation) = &self.price_annotation {
+            use PriceSpec::*;
+            use ScopedExprValue::*;
+
+            match price_annotation.item() {
+                BareAmount(Total(amount)) => write!(f, " @@ {}", amount)?,
+                CurrencyAmount(Total(amount), cur) => write!(f, " @@ {} {}", amount, cur)?,
+                other => write!(f, " @ {}", other)?,
+            }
+        }
 
         self.metadata.fmt(f)
     }
-- 
2.43.0


From 56a0ea1b6cca6259e19f854b2c0e7583a784166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:29 +0000
Subject: [PATCH 13/23] fix: escape quotes and backslashes when displaying
 strings

---
 src/format.rs | 12 ++++++++++--
 src/types.rs  | 28 ++++++++++++++++++----------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index a911537..df6502a 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -59,12 +59,20 @@ where
     lazy_format!("'{s}'")
 }
 
-/// Format in double quotes.
+/// Format in double quotes, escaped as required for a string literal.
 pub fn double_quoted<S>(s: S) -> impl Display
 where
     S: Display,
 {
-    lazy_format!("\"{s}\"")
+    lazy_format!("\"{}\"", escaped(&s))
+}
+
+/// Escape quotes and backslashes, which is all that a string literal requires.
+fn escaped<S>(s: S) -> String
+where
+    S: Display,
+{
+    s.to_string().replace('\\', r"\\").replace('"', r#"\""#)
 }
 
 /// Format key/value.
diff --git a/src/types.rs b/src/types.rs
index d94aa8d..ca4931a 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1049,7 +1049,7 @@ pub struct Document<'a> {
 
 impl<'a> Document<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} document {} \"{}\"", date, self.account, self.path)?;
+        write!(f, "{} document {} {}", date, self.account, double_quoted(self.path))?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1076,7 +1076,7 @@ pub struct Note<'a> {
 
 impl<'a> Note<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} note {} \"{}\"", date, self.account, self.comment)?;
+        write!(f, "{} note {} {}", date, self.account, double_quoted(self.comment))?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1104,8 +1104,10 @@ impl<'a> Event<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
         write!(
             f,
-            "{} event \"{}\" \"{}\"",
-            date, self.event_type, self.description
+            "{} event {} {}",
+            date,
+            double_quoted(self.event_type),
+            double_quoted(self.description)
         )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
@@ -1132,7 +1134,13 @@ pub struct Query<'a> {
 
 impl<'a> Query<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} query \"{}\" \"{}\"", date, self.name, self.content)?;
+        write!(
+            f,
+            "{} query {} {}",
+            date,
+            double_quoted(self.name),
+            double_quoted(self.content)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1158,7 +1166,7 @@ pub struct Custom<'a> {
 
 impl<'a> Custom<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} custom \"{}\"", date, self.type_)?;
+        write!(f, "{} custom {}", date, double_quoted(self.type_))?;
         format(f, &self.values, plain, SPACE, Some(SPACE))?;
         // show tags and links on separate lines rather than inline to avoid ambiguity with custom values
         metadata.fmt_tags_links_on_separate_lines(f)?;
@@ -1197,9 +1205,9 @@ impl<'a> Plugin<'a> {
 
 impl Display for Plugin<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        write!(f, "plugin \"{}\"", self.module_name)?;
+        write!(f, "plugin {}", double_quoted(self.module_name))?;
         if let Some(config) = &self.config {
-            write!(f, " \"{}\"", config)?;
+            write!(f, " {}", double_quoted(config))?;
         }
         writeln!(f)
     }
@@ -1933,7 +1941,7 @@ impl Display for SimpleValue<'_> {
         use SimpleValue::*;
 
         match self {
-            String(x) => write!(f, r#""{}""#, x),
+            String(x) => double_quoted(x).fmt(f),
             Currency(x) => x.fmt(f),
             Account(x) => x.fmt(f),
             Tag(x) => x.fmt(f),
@@ -2590,7 +2598,7 @@ impl Display for CostSpec<'_> {
         }
 
         if let Some(label) = &self.label {
-            write!(f, "{}\"{}\"", sep, label)?;
+            write!(f, "{}{}", sep, double_quoted(label))?;
             sep = comma_space;
         }
 
-- 
2.43.0


From 1e65d45f3e0ad7205f961d21df00a7a46ec290cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:37 +0000
Subject: [PATCH 14/23] fix: blank space after the last newline is not an
 indent

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 8a01bc6..bd5b0aa 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -591,6 +591,8 @@ where
         }
 
         match first_tok {
+            // nothing follows at end of input, so that's trailing whitespace rather than an indent
+            Some((Token::EolThenIndent, span)) if second_tok.is_none() => Some((Token::Eol, span)),
             Some((Token::EolThenIndent, span)) => {
                 self.pending = [Some((Token::Indent, span.end - 1..span.end)), second_tok];
                 Some((Token::Eol, span))
-- 
2.43.0


From 36f246d761396ce25eb69327bcd450d4ec8789af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:23 +0000
Subject: [PATCH 15/23] fix: a file included under several paths is found under
 any of them

---
 src/sources.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index ef390a2..d49f5c4 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -2,7 +2,7 @@ use ariadne::{Color, Label};
 use glob::{self, glob_with};
 use lazy_format::lazy_format;
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{HashMap, VecDeque},
     ffi::OsStr,
     fmt::{self, Formatter},
     fs::File,
@@ -72,13 +72,13 @@ impl BeancountSources {
         let mut included_globs = HashMap::new();
         let mut included_content: HashMap<PathBuf, IncludedSource> = HashMap::new();
 
-        // for duplicate detection
-        let mut canonical_paths =
-            if let Some(canonical_root) = root_path.as_ref().and_then(|p| p.canonicalize().ok()) {
-                HashSet::from([canonical_root])
-            } else {
-                HashSet::default()
-            };
+        // for duplicate detection, the path under which each canonical path was first seen
+        let mut canonical_paths = HashMap::<PathBuf, PathBuf>::default();
+        if let Some(root_path) = root_path.as_ref() {
+            if let Ok(canonical_root) = root_path.canonicalize() {
+                canonical_paths.insert(canonical_root, root_path.clone());
+            }
+        }
 
         while !pending_includes.is_empty() {
             let included = pending_includes.pop_front().unwrap();
@@ -107,16 +107,27 @@ impl BeancountSources {
                                 included_content.insert(path, IncludedSource::Error(e.to_string()));
                             }
                             Ok(globbed_include) => {
-                                glob_expansions.push(globbed_include.clone());
-
-                                if let Ok(canonical_path) = globbed_include.canonicalize() {
-                                    if canonical_paths.contains(&canonical_path) {
+                                let canonical_path = globbed_include.canonicalize();
+
+                                // the same file under any other path expands to the path its content is found under
+                                glob_expansions.push(
+                                    canonical_path
+                                        .as_ref()
+                                        .ok()
+                                        .and_then(|p| canonical_paths.get(p))
+                                        .unwrap_or(&globbed_include)
+                                        .clone(),
+                                );
+
+                                if let Ok(canonical_path) = canonical_path {
+                                    if canonical_paths.contains_key(&canonical_path) {
                                         // don't overwrite existing content
                                         included_content
                                             .entry(globbed_include)
                                             .or_insert(IncludedSource::Duplicate);
                                     } else {
-                                        canonical_paths.insert(canonical_path);
+                                        canonical_paths
+                                            .insert(canonical_path, globbed_include.clone());
 
                                         let source_id = SourceId::from(source_id_strings.len());
                                         source_id_strings
-- 
2.43.0


From 7796dc387421650623534be730e99d11675ea0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:18 +0000
Subject: [PATCH 16/23] fix: duplicate include compares pushed metadata
 regardless of where it was pushed

---
 src/lib.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d688d4b..4a2f885 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -333,6 +333,22 @@ struct IncludeContext<'s> {
     span: Span,
 }
 
+// whether the key/values are the same, regardless of where they were pushed
+fn same_meta_key_values<'s>(
+    a: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+    b: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+) -> bool {
+    a.len() == b.len()
+        && a.iter().all(|(key, a_values)| {
+            b.get(key).is_some_and(|b_values| {
+                a_values
+                    .iter()
+                    .map(|(_, value)| value)
+                    .eq(b_values.iter().map(|(_, value)| value))
+            })
+        })
+}
+
 fn fmt_include_context<'s>(
     tags: &HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
@@ -618,9 +634,11 @@ impl<'s> PragmaProcessor<'s> {
                                                                 .get(&canonical_path)
                                                             {
                                                                 if include_context.tags == self.tags
-                                                                    && include_context
-                                                                        .meta_key_values
-                                                                        == self.meta_key_values
+                                                                    && same_meta_key_values(
+                                                                        &include_context
+                                                                            .meta_key_values,
+                                                                        &self.meta_key_values,
+                                                                    )
                                                                 {
                                                                     // include context is identical, so the include is harmless
                                                                     // and we ignore it
-- 
2.43.0


From dd696199f1f8a6099eb3e7508259eb3db59d5594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:31 +0000
Subject: [PATCH 17/23] fix: directory of the including file is not part of the
 include's glob pattern

---
 src/sources.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index d49f5c4..f362bc1 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -65,7 +65,7 @@ impl BeancountSources {
 
         let mut pending_includes = get_includes(&root_content, root_source_id)
             .into_iter()
-            .map(|included| resolve_included_path(root_path.as_ref(), included.as_ref()))
+            .map(|included| resolve_included_glob(root_path.as_ref(), included.as_ref()))
             .collect::<VecDeque<_>>();
 
         let mut included_paths = Vec::new();
@@ -81,12 +81,10 @@ impl BeancountSources {
         }
 
         while !pending_includes.is_empty() {
-            let included = pending_includes.pop_front().unwrap();
-            let included_str = included.to_string_lossy();
-            let included_str = included_str.as_ref();
+            let (included, pattern) = pending_includes.pop_front().unwrap();
 
             match glob_with(
-                included_str,
+                pattern.to_string_lossy().as_ref(),
                 glob::MatchOptions {
                     case_sensitive: true,
                     require_literal_separator: true,
@@ -167,7 +165,7 @@ impl BeancountSources {
                                             let mut includes = get_includes(content, source_id)
                                                 .into_iter()
                                                 .map(|included_path| {
-                                                    resolve_included_path(
+                                                    resolve_included_glob(
                                                         Some(&globbed_include),
                                                         included_path.as_ref(),
                                                     )
@@ -625,6 +623,22 @@ pub(crate) fn resolve_included_path(
     }
 }
 
+// get included path relative to including path, along with its glob pattern,
+// in which the directory of the including path is literal
+fn resolve_included_glob(
+    including_path: Option<&PathBuf>,
+    included_path: &Path,
+) -> (PathBuf, PathBuf) {
+    let pattern = match including_path.and_then(|p| path_dir(p.as_ref())) {
+        Some(p) => {
+            PathBuf::from(glob::Pattern::escape(&p.to_string_lossy())).join(included_path)
+        }
+        None => included_path.to_path_buf(),
+    };
+
+    (resolve_included_path(including_path, included_path), pattern)
+}
+
 // get directory for a path if any
 fn path_dir(p: &Path) -> Option<&Path> {
     p.parent().and_then(|p| {
-- 
2.43.0


From 258f70aa1745e08a0bd70e5e6812729cad7e93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:19 +0000
Subject: [PATCH 18/23] fix: parsing doesn't consult the file system again for
 duplicate includes

---
 src/lib.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a2f885..638a5d0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -315,7 +315,7 @@ struct PragmaProcessor<'s> {
     remaining: HashMap<Option<PathBuf>, VecDeque<Spanned<Declaration<'s>>>>,
     included_globs: &'s HashMap<PathBuf, IncludedGlob>,
     error_paths: HashMap<Option<PathBuf>, String>,
-    include_by_canonical_path: HashMap<PathBuf, IncludeContext<'s>>,
+    include_by_path: HashMap<PathBuf, IncludeContext<'s>>,
     // tags and meta key/values for pragma push/pop
     tags: HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
@@ -402,7 +402,7 @@ impl<'s> PragmaProcessor<'s> {
             remaining,
             included_globs,
             error_paths,
-            include_by_canonical_path: HashMap::default(),
+            include_by_path: HashMap::default(),
             tags: HashMap::new(),
             meta_key_values: HashMap::new(),
             options,
@@ -581,14 +581,10 @@ impl<'s> PragmaProcessor<'s> {
                                                     ));
 
                                                     // record the span in case of a duplicate include error later
-                                                    if let Ok(canonical_path) = self
-                                                        .current_path
-                                                        .as_ref()
-                                                        .unwrap()
-                                                        .canonicalize()
-                                                    {
-                                                        self.include_by_canonical_path.insert(
-                                                            canonical_path,
+                                                    // the file system is not consulted again, each file has only one path here
+                                                    if let Some(path) = self.current_path.as_ref() {
+                                                        self.include_by_path.insert(
+                                                            path.clone(),
                                                             IncludeContext {
                                                                 tags: self.tags.clone(),
                                                                 meta_key_values: self
@@ -625,13 +621,10 @@ impl<'s> PragmaProcessor<'s> {
                                                         );
 
                                                         // relate the error to the first include if we can
-                                                        let e = if let Some(canonical_path) =
-                                                            included.and_then(|included| {
-                                                                included.canonicalize().ok()
-                                                            }) {
+                                                        let e = if let Some(path) = included {
                                                             if let Some(include_context) = self
-                                                                .include_by_canonical_path
-                                                                .get(&canonical_path)
+                                                                .include_by_path
+                                                                .get(&path)
                                                             {
                                                                 if include_context.tags == self.tags
                                                                     && same_meta_key_values(
-- 
2.43.0


From 29bc510114ec1e6c93d8d6a695b330913470f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:25 +0000
Subject: [PATCH 19/23] fix: ignore heading lines at the very start of a file

---
 src/lexer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index bd5b0aa..7f06351 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -316,13 +316,24 @@ fn lex_with_final_eol<'a>(
     s: &'a str,
     final_eol: Option<Range<usize>>,
 ) -> impl Iterator<Item = RangedToken<'a>> {
-    Token::lexer(s)
+    let mut lexer = Token::lexer(s);
+    lexer.bump(ignored_first_lines_len(s));
+
+    lexer
         .spanned()
         .attempt_recovery(s)
         .keyword_then_colon_to_key()
         .handle_eol_indent(final_eol)
 }
 
+// Length of any ignored whole lines at the very start, before the first newline to which `Token` anchors them
+fn ignored_first_lines_len(s: &str) -> usize {
+    s.split_inclusive('\n')
+        .take_while(|line| line.ends_with('\n') && line.starts_with(['*', '!', '&', '#', '?', '%', ':']))
+        .map(str::len)
+        .sum()
+}
+
 // This is a work-around for Logos issue #315.
 // Logos starts matching text like '/1.24' as a currency, and when it fails, it doesn't retry as slash followed by number.
 //
-- 
2.43.0


From 6878de0c370e89cdcececf878cf69b230a3490bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 20/23] fix: ignore a heading line at the very end of a file
 without newline

---
 src/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 7f06351..0fc2483 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -163,7 +163,12 @@ pub enum Token<'a> {
 
     // A trailing comment without a following newline (occurs at EOF).
     // Logos longest-match ensures this only fires when Eol can't match.
+    // Likewise for an ignored whole line.
     #[regex(r";[^\r\n]*", allow_greedy = true)]
+    #[regex(
+        r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*[*!&#?%:][^\r\n]*",
+        allow_greedy = true
+    )]
     EolComment,
 
     // indent handling is post-processed by lexer, when `EolThenIndent` is broken into separate `Eol` and `Indent`
-- 
2.43.0


From 406ba9dcd49bb9ad5ac2a067106a9fe87b013236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:09 +0000
Subject: [PATCH 21/23] fix: ignore a file of nothing but heading lines without
 final newline

---
 src/lexer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 0fc2483..2e56ad6 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -322,7 +322,7 @@ fn lex_with_final_eol<'a>(
     final_eol: Option<Range<usize>>,
 ) -> impl Iterator<Item = RangedToken<'a>> {
     let mut lexer = Token::lexer(s);
-    lexer.bump(ignored_first_lines_len(s));
+    lexer.bump(ignored_first_lines_len(s, final_eol.is_some()));
 
     lexer
         .spanned()
@@ -332,9 +332,12 @@ fn lex_with_final_eol<'a>(
 }
 
 // Length of any ignored whole lines at the very start, before the first newline to which `Token` anchors them
-fn ignored_first_lines_len(s: &str) -> usize {
+fn ignored_first_lines_len(s: &str, eol_at_end: bool) -> usize {
     s.split_inclusive('\n')
-        .take_while(|line| line.ends_with('\n') && line.starts_with(['*', '!', '&', '#', '?', '%', ':']))
+        .take_while(|line| {
+            (line.ends_with('\n') || eol_at_end)
+                && line.starts_with(['*', '!', '&', '#', '?', '%', ':'])
+        })
         .map(str::len)
         .sum()
 }
-- 
2.43.0


From 6c54ca5beffc8aad6755787018400d1bb5fb327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:24 +0000
Subject: [PATCH 22/23] fix: ignore an indented line starting with a colon
 whatever it holds

---
 src/lexer.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 2e56ad6..7bca163 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -155,7 +155,10 @@ pub enum Token<'a> {
 
     // end-of-line and indent, which is the only significant whitespace
     // ignored_whole_line must be anchored immediately after a newline
-    #[regex(r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*[ \t]+")]
+    #[regex(
+        r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*[ \t]+",
+        ignore_indented_colon_line
+    )]
     EolThenIndent,
 
     #[regex(r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*")]
@@ -336,12 +339,23 @@ fn ignored_first_lines_len(s: &str, eol_at_end: bool) -> usize {
     s.split_inclusive('\n')
         .take_while(|line| {
             (line.ends_with('\n') || eol_at_end)
-                && line.starts_with(['*', '!', '&', '#', '?', '%', ':'])
+                && (line.starts_with(['*', '!', '&', '#', '?', '%'])
+                    || line.trim_start_matches([' ', '\t']).starts_with(':'))
         })
         .map(str::len)
         .sum()
 }
 
+// Ignore the rest of an indented line which starts with a colon, whatever is in there,
+// leaving only its newline to be lexed.
+fn ignore_indented_colon_line<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) {
+    let remainder = lexer.remainder();
+    if remainder.starts_with(':') {
+        let n = remainder.find('\n').unwrap_or(remainder.len());
+        lexer.bump(n);
+    }
+}
+
 // This is a work-around for Logos issue #315.
 // Logos starts matching text like '/1.24' as a currency, and when it fails, it doesn't retry as slash followed by number.
 //
@@ -520,7 +534,6 @@ impl<'a, I: Iterator<Item = RangedToken<'a>>> KeywordThenColonToKeyIteratorAdapt
 /// 2. Fold consecutive Eol tokens into a single one
 /// 3. Drop any initial Eol
 /// 4. Optionally, force a final Eol (unless input was empty)
-/// 5. Drop tokens for indent followed by colon (Logos deficiency precludes using Logos regexes for this)
 struct EolIndentHandler<'a, I> {
     iter: I,
     first_tok: Option<RangedToken<'a>>,
@@ -563,15 +576,6 @@ where
         }
     }
 
-    fn skip_to_end_of_line(&mut self) -> Option<RangedToken<'a>> {
-        let mut tok = self.iter.next();
-        while tok.as_ref().is_some_and(|tok| !tok.0.is_eol()) {
-            tok = self.iter.next();
-        }
-
-        tok
-    }
-
     // only get a second token if the first is some kind of EOL, because only then is there anything to merge
     fn get_second_tok_if_required(
         &mut self,
@@ -597,12 +601,6 @@ where
                     first_tok = Some((tok, first.1.start..end));
                     second_tok = self.iter.next();
                 }
-                (Some(first), Some(second))
-                    if first.0 == Token::EolThenIndent && second.0 == Token::Colon =>
-                {
-                    first_tok = self.skip_to_end_of_line();
-                    second_tok = self.get_second_tok_if_required(&first_tok);
-                }
                 _ => {
                     merging = false;
                 }
-- 
2.43.0


From d84eaa173ee3f918117ca145327fe6684498e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:37 +0000
Subject: [PATCH 23/23] fix: say that a file included through a broken link
 can't be read

---
 src/sources.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sources.rs b/src/sources.rs
index f362bc1..a0b4541 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -117,6 +117,18 @@ impl BeancountSources {
                                         .clone(),
                                 );
 
+                                if let Err(e) = canonical_path.as_ref() {
+                                    // such as a broken link
+                                    included_content.insert(
+                                        globbed_include.clone(),
+                                        IncludedSource::Error(format!(
+                                            "{}: {}",
+                                            globbed_include.to_string_lossy(),
+                                            e
+                                        )),
+                                    );
+                                }
+
                                 if let Ok(canonical_path) = canonical_path {
                                     if canonical_paths.contains_key(&canonical_path) {
                                         // don't overwrite existing content
-- 
2.43.0

