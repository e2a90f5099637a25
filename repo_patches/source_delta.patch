From 84e314e8e4706486f470170012eed4b5aa1b9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:04 +0000
Subject: [PATCH 01/59] fix: RepeatBetween must look ahead from the current
 position and reject short repetitions

The interpreters consulted the repetition lookahead at the position where the
repetition began, so any repetition shorter than the maximum was rejected, and
panicked instead of failing when fewer than the minimum were present. The inner
format was also compiled against only the first iteration's continuation.
---
 src/codegen/typed_decoder.rs | 15 +++-----------
 src/decoder.rs               | 40 ++++++++++++++----------------------
 src/loc_decoder.rs           | 24 ++++++++++------------
 3 files changed, 29 insertions(+), 50 deletions(-)

diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index 2e00831..0c80890 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -542,23 +542,14 @@ impl<'a> GTCompiler<'a> {
             }
             TypedFormat::RepeatBetween(gt, min_expr, max_expr, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = min_expr.bounds().as_exact() else {
+                if min_expr.bounds().as_exact().is_none() {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
-                };
+                }
                 let Some(max) = max_expr.bounds().as_exact() else {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
 
-                let da = self.compile_gt_format(
-                    a,
-                    None,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
-                        max.saturating_sub(1),
-                        MaybeTyped::Typed(a),
-                        next.clone(),
-                    )),
-                )?;
+                let da = self.compile_gt_format(a, None, Self::__repeat_next(a, next.clone()))?;
 
                 let reps_left_tree = {
                     let mut branches: Vec<Format> = Vec::new();
diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..b46df9e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -739,22 +739,14 @@ impl<'a> Compiler<'a> {
             }
             Format::RepeatBetween(xmin, xmax, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = xmin.bounds().as_exact() else {
+                if xmin.bounds().as_exact().is_none() {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
-                };
+                }
                 let Some(max) = xmax.bounds().as_exact() else {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
 
-                let da = self.compile_format(
-                    a,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
-                        max.saturating_sub(1),
-                        MaybeTyped::Untyped(a),
-                        next.clone(),
-                    )),
-                )?;
+                let da = self.compile_format(a, Self::__repeat_next(a, next.clone()))?;
 
                 let tree = {
                     let mut branches: Vec<Format> = Vec::new();
@@ -765,7 +757,7 @@ impl<'a> Compiler<'a> {
                         branches.push(f_count);
                     }
                     let Some(tree) = MatchTree::build(self.module, &branches[..], next) else {
-                        panic!("cannot build match tree for {format:?}")
+                        return Err(anyhow!("cannot build match tree for {:?}", format));
                     };
                     tree
                 };
@@ -1389,21 +1381,19 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
-                    // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
-                        DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        }
-                        .with_trace(v.len()),
-                    )? == 0
-                        || v.len() == max
-                    {
-                        if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
-                        }
+                    let (v, input) = res.as_ref();
+                    if v.len() == max {
                         break;
                     }
+                    let no_branch = DecodeErrorKind::NoValidBranch {
+                        offset: input.offset,
+                    };
+                    match reps_left_tree.matches(*input) {
+                        None => return Err(no_branch.with_trace(v.len())),
+                        Some(0) if v.len() < min => return Err(no_branch.with_trace(v.len())),
+                        Some(0) => break,
+                        Some(_) => {}
+                    }
                     res = res.join(|(mut v, input)| {
                         Ok(
                             try_with!(a.parse(program, scope, input) => ("RepeatBetween", v.len()))
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..676b9d8 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1571,21 +1571,19 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
-                    // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree
-                        .matches(input)
-                        .ok_or(DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        })?
-                        == 0
-                        || v.len() == max
-                    {
-                        if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
-                        }
+                    let (v, input) = res.as_ref();
+                    if v.len() == max {
                         break;
                     }
+                    let no_branch = DecodeErrorKind::NoValidBranch {
+                        offset: input.offset,
+                    };
+                    match reps_left_tree.matches(*input) {
+                        None => return Err(no_branch.into()),
+                        Some(0) if v.len() < min => return Err(no_branch.into()),
+                        Some(0) => break,
+                        Some(_) => {}
+                    }
                     res = res.join(|(mut v, input)| {
                         Ok(a.parse_with_loc(program, scope, input)?
                             .map(move |(va, next_input)| {
-- 
2.43.0


From a1340f7ea95615bac976464bcd8a65cca3d01b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 02/59] fix: evaluate expressions over the fallback value of a
 Permit

Arithmetic, casts, comparisons, counts and projections over a value produced by
a taken Permit fallback panicked (or lost the value) in both interpreters, because
only pattern-matching unwrapped it.
---
 src/decoder.rs       | 28 ++++++++++++++--------------
 src/decoder/value.rs | 11 +++++++++++
 src/loc_decoder.rs   | 44 ++++++++++++++++++++++++++++----------------
 3 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b46df9e..5dfdbca 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -82,7 +82,7 @@ impl Expr {
                 exprs.iter().map(|expr| expr.eval_value(scope)).collect(),
             )),
             Expr::TupleProj(head, index) => cow_map(head.eval(scope), |v| {
-                v.coerce_mapped_value().tuple_proj(*index)
+                v.coerce_nominal_value().tuple_proj(*index)
             }),
             Expr::Record(fields) => {
                 Cow::Owned(Value::record(fields.iter().map(|(label, expr)| {
@@ -90,7 +90,7 @@ impl Expr {
                 })))
             }
             Expr::RecordProj(head, label) => cow_map(head.eval(scope), |v| {
-                v.coerce_mapped_value().record_proj(label.as_ref())
+                v.coerce_nominal_value().record_proj(label.as_ref())
             }),
             Expr::Variant(label, expr) => {
                 Cow::Owned(Value::variant(label.clone(), expr.eval_value(scope)))
@@ -250,7 +250,7 @@ impl Expr {
                 ),
                 _ => panic!("AsChar: expected U8, U16, U32, or U64"),
             }),
-            Expr::SeqLength(seq) => match seq.eval(scope).coerce_mapped_value().get_sequence() {
+            Expr::SeqLength(seq) => match seq.eval(scope).coerce_nominal_value().get_sequence() {
                 Some(values) => {
                     let len = values.len();
                     Cow::Owned(Value::U32(len as u32))
@@ -258,7 +258,7 @@ impl Expr {
                 _ => panic!("SeqLength: expected Seq"),
             },
             Expr::SeqIx(seq, index) => cow_remap(seq.eval(scope), |v| {
-                match v.coerce_mapped_value().get_sequence() {
+                match v.coerce_nominal_value().get_sequence() {
                     Some(values) => match values {
                         ValueSeq::ValueSeq(values) => {
                             let index = index.eval_value(scope).unwrap_usize();
@@ -273,7 +273,7 @@ impl Expr {
                 }
             }),
             Expr::SubSeq(seq, start, length) => {
-                match seq.eval(scope).coerce_mapped_value().get_sequence() {
+                match seq.eval(scope).coerce_nominal_value().get_sequence() {
                     Some(values) => match values {
                         ValueSeq::ValueSeq(values) => {
                             let start = start.eval_value(scope).unwrap_usize();
@@ -290,7 +290,7 @@ impl Expr {
                 }
             }
             Expr::SubSeqInflate(seq, start, length) => {
-                match seq.eval(scope).coerce_mapped_value().get_sequence() {
+                match seq.eval(scope).coerce_nominal_value().get_sequence() {
                     Some(values) => {
                         let start = start.eval_value(scope).unwrap_usize();
                         let length = length.eval_value(scope).unwrap_usize();
@@ -324,13 +324,13 @@ impl Expr {
                 }
             }
             Expr::Append(seq0, seq1) => {
-                match seq0.eval(scope).coerce_mapped_value().get_sequence() {
-                    Some(val_seq0) => match seq1.eval(scope).coerce_mapped_value().get_sequence() {
+                match seq0.eval(scope).coerce_nominal_value().get_sequence() {
+                    Some(val_seq0) => match seq1.eval(scope).coerce_nominal_value().get_sequence() {
                         Some(val_seq1) => {
                             if val_seq0.is_empty() {
-                                return Cow::Owned(seq1.eval(scope).coerce_mapped_value().clone());
+                                return Cow::Owned(seq1.eval(scope).coerce_nominal_value().clone());
                             } else if val_seq1.is_empty() {
-                                return Cow::Owned(seq0.eval(scope).coerce_mapped_value().clone());
+                                return Cow::Owned(seq0.eval(scope).coerce_nominal_value().clone());
                             }
                             Cow::Owned(Value::Seq(val_seq0.append(val_seq1)))
                         }
@@ -340,7 +340,7 @@ impl Expr {
                 }
             }
             Expr::FlatMap(expr, seq) => {
-                match seq.eval(scope).coerce_mapped_value().get_sequence() {
+                match seq.eval(scope).coerce_nominal_value().get_sequence() {
                     Some(values) => {
                         let mut vs = Vec::new();
                         for v in values {
@@ -453,8 +453,8 @@ impl Expr {
 
     fn eval_value_ref<'a, 'b: 'a>(&'b self, scope: &'a Scope<'a>) -> Cow<'a, Value> {
         match self.eval(scope) {
-            Cow::Borrowed(value) => Cow::Borrowed(value.coerce_mapped_value()),
-            Cow::Owned(v) => Cow::Owned(v.extract_mapped_value()),
+            Cow::Borrowed(value) => Cow::Borrowed(value.coerce_nominal_value()),
+            Cow::Owned(v) => Cow::Owned(v.extract_nominal_value()),
         }
     }
 
@@ -1752,7 +1752,7 @@ fn value_to_vec_usize(v: &Value) -> Vec<usize> {
         _ => panic!("expected Seq"),
     };
     vs.iter()
-        .map(|v| match v.coerce_mapped_value() {
+        .map(|v| match v.coerce_nominal_value() {
             Value::U8(n) => *n as usize,
             _ => panic!("expected U8"),
         })
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..22ac653 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -318,6 +318,17 @@ impl Value {
         }
     }
 
+    /// Like `coerce_nominal_value`, but for owned values rather than borrowed ones.
+    pub fn extract_nominal_value(self) -> Self {
+        match self {
+            Value::Permit(Ok(v)) => v.extract_nominal_value(),
+            Value::Permit(Err(Some(v))) => v.extract_nominal_value(),
+            Value::Mapped(_orig, v) => v.extract_nominal_value(),
+            Value::Branch(_n, v) => v.extract_nominal_value(),
+            v => v,
+        }
+    }
+
     pub(crate) fn get_sequence(&self) -> Option<ValueSeq<'_, Self>> {
         match self {
             Value::Seq(elts) => Some(ValueSeq::ValueSeq(elts)),
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 676b9d8..6df7447 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -464,7 +464,7 @@ impl ParsedValue {
     }
 
     fn tuple_proj(&self, index: usize) -> &Self {
-        match self.coerce_mapped_value() {
+        match self.coerce_nominal_value() {
             ParsedValue::Tuple(Parsed { inner, .. }) => &inner[index],
             _ => panic!("expected tuple"),
         }
@@ -488,6 +488,18 @@ impl ParsedValue {
         }
     }
 
+    /// Higher-level version of `coerce_mapped_value` that also unwraps the fallback-value of
+    /// any `ParsedValue::Permit(Err)`, for evaluation and pattern-matching purposes.
+    pub(crate) fn coerce_nominal_value(&self) -> &Self {
+        match self {
+            ParsedValue::Mapped(_orig, v) => v.coerce_nominal_value(),
+            ParsedValue::Branch(_n, v) => v.coerce_nominal_value(),
+            ParsedValue::Permit(Ok(v)) => v.coerce_nominal_value(),
+            ParsedValue::Permit(Err(Some(v))) => v.coerce_nominal_value(),
+            v => v,
+        }
+    }
+
     pub(crate) fn from_evaluated(expr_value: Value) -> Self {
         match expr_value {
             Value::Bool(_)
@@ -579,7 +591,7 @@ impl ParsedValue {
 
     fn matches<'a>(&self, scope: &'a LocScope<'a>, pattern: &Pattern) -> Option<LocMultiScope<'a>> {
         let mut pattern_scope = LocMultiScope::new(scope);
-        self.coerce_mapped_value()
+        self.coerce_nominal_value()
             .matches_inner(&mut pattern_scope, pattern)
             .then_some(pattern_scope)
     }
@@ -609,7 +621,7 @@ impl Expr {
                     .collect(),
             ))),
             Expr::TupleProj(head, index) => cow_map(head.eval_with_loc(scope), |v| {
-                v.coerce_mapped_value().tuple_proj(*index)
+                v.coerce_nominal_value().tuple_proj(*index)
             }),
             Expr::Record(fields) => Cow::Owned(ParsedValue::collect_fields(
                 fields
@@ -618,7 +630,7 @@ impl Expr {
                     .collect(),
             )),
             Expr::RecordProj(head, label) => cow_map(head.eval_with_loc(scope), |v| {
-                v.coerce_mapped_value().record_proj(label.as_ref())
+                v.coerce_nominal_value().record_proj(label.as_ref())
             }),
             Expr::Variant(label, expr) => Cow::Owned(ParsedValue::from_evaluated(Value::variant(
                 label.clone(),
@@ -803,7 +815,7 @@ impl Expr {
             )),
             Expr::SeqLength(seq) => match seq
                 .eval_with_loc(scope)
-                .coerce_mapped_value()
+                .coerce_nominal_value()
                 .get_sequence()
             {
                 Some(values) => {
@@ -813,7 +825,7 @@ impl Expr {
                 _ => panic!("SeqLength: expected Seq (or EnumFromTo)"),
             },
             Expr::SeqIx(seq, index) => cow_remap(seq.eval_with_loc(scope), |v| {
-                match v.coerce_mapped_value().get_sequence() {
+                match v.coerce_nominal_value().get_sequence() {
                     Some(values) => {
                         let index = index.eval_value_with_loc(scope).unwrap_usize();
                         match values {
@@ -831,7 +843,7 @@ impl Expr {
             Expr::SubSeq(seq, start, length) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(values) => {
@@ -852,7 +864,7 @@ impl Expr {
             Expr::SubSeqInflate(seq, start, length) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(values) => {
@@ -889,11 +901,11 @@ impl Expr {
             }
             Expr::Append(seq0, seq1) => {
                 let tmp0 = seq0.eval_with_loc(scope);
-                let val0 = tmp0.coerce_mapped_value();
+                let val0 = tmp0.coerce_nominal_value();
                 match val0.get_sequence() {
                     Some(val_seq0) => {
                         let tmp1 = seq1.eval_with_loc(scope);
-                        let val1 = tmp1.coerce_mapped_value();
+                        let val1 = tmp1.coerce_nominal_value();
                         match val1.get_sequence() {
                             Some(val_seq1) => {
                                 if val_seq0.is_empty() {
@@ -915,7 +927,7 @@ impl Expr {
             Expr::FlatMap(expr, seq) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(values) => {
@@ -934,7 +946,7 @@ impl Expr {
             }
             Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq
                 .eval_with_loc(scope)
-                .coerce_mapped_value()
+                .coerce_nominal_value()
                 .get_sequence()
             {
                 Some(values) => {
@@ -962,7 +974,7 @@ impl Expr {
             },
             Expr::LeftFold(expr, accum, _accum_type, seq) => match seq
                 .eval_with_loc(scope)
-                .coerce_mapped_value()
+                .coerce_nominal_value()
                 .get_sequence()
             {
                 Some(values) => {
@@ -984,7 +996,7 @@ impl Expr {
             Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => {
                 match seq
                     .eval_with_loc(scope)
-                    .coerce_mapped_value()
+                    .coerce_nominal_value()
                     .get_sequence()
                 {
                     Some(ValueSeq::ValueSeq(values)) => {
@@ -1064,7 +1076,7 @@ impl Expr {
 
     pub fn eval_value_with_loc<'a>(&self, scope: &'a LocScope<'a>) -> Value {
         self.eval_with_loc(scope)
-            .coerce_mapped_value()
+            .coerce_nominal_value()
             .clone_into_value()
     }
 
@@ -1975,7 +1987,7 @@ fn value_to_vec_usize(v: &ParsedValue) -> Vec<usize> {
         _ => panic!("expected Seq"),
     };
     vs.iter()
-        .map(|v| match v.coerce_mapped_value() {
+        .map(|v| match v.coerce_nominal_value() {
             Value::U8(n) => *n as usize,
             _ => panic!("expected U8"),
         })
-- 
2.43.0


From e24e2fcfad5bffd7b79e554dd8e252651728d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:21 +0000
Subject: [PATCH 03/59] fix: patterns see through Mapped/Branch/Permit wrappers
 at every depth

Only the outermost wrapper was removed before matching, so a tuple, variant,
option or sequence pattern failed against a component that had been mapped or
parsed through a union, leaving exhaustive matches without an applicable branch.
---
 src/decoder/value.rs | 30 ++++++++++++++++--------------
 src/loc_decoder.rs   | 30 ++++++++++++++++--------------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 22ac653..b1c7f0f 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -178,34 +178,36 @@ impl Value {
         scope: &mut MultiScope<'a>,
         pattern: &Pattern,
     ) -> bool {
+        // representation-only wrappers (e.g. `Mapped`, `Branch`, `Permit`) are not visible to patterns
+        let this = self.coerce_nominal_value();
         match pattern {
             Pattern::Binding(name) => {
                 scope.push(name.clone(), self);
                 true
             }
             Pattern::Wildcard => true,
-            Pattern::Bool(b0) => matches!(self, Value::Bool(b1) if b0 == b1),
-            Pattern::U8(i0) => match self {
+            Pattern::Bool(b0) => matches!(this, Value::Bool(b1) if b0 == b1),
+            Pattern::U8(i0) => match this {
                 Value::U8(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u8(*i0),
                 _ => false,
             },
-            Pattern::U16(i0) => match self {
+            Pattern::U16(i0) => match this {
                 Value::U16(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u16(*i0),
                 _ => false,
             },
-            Pattern::U32(i0) => match self {
+            Pattern::U32(i0) => match this {
                 Value::U32(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u32(*i0),
                 _ => false,
             },
-            Pattern::U64(i0) => match self {
+            Pattern::U64(i0) => match this {
                 Value::U64(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u64(*i0),
                 _ => false,
             },
-            Pattern::Int(bounds) => match self {
+            Pattern::Int(bounds) => match this {
                 Value::U8(n) => bounds.contains(usize::from(*n)),
                 Value::U16(n) => bounds.contains(usize::from(*n)),
                 Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
@@ -214,7 +216,7 @@ impl Value {
                 Value::Numeric(n) => n.matches_int_range(*bounds),
                 _ => false,
             },
-            Pattern::ZConst(z) => match self {
+            Pattern::ZConst(z) => match this {
                 Value::U8(n) => z == &BigInt::from(*n),
                 Value::U16(n) => z == &BigInt::from(*n),
                 Value::U32(n) => z == &BigInt::from(*n),
@@ -223,7 +225,7 @@ impl Value {
                 Value::Numeric(n) => n.eq_num(z),
                 _ => false,
             },
-            Pattern::ZRange(range) => match self {
+            Pattern::ZRange(range) => match this {
                 Value::U8(n) => range.contains(&BigInt::from(*n)),
                 Value::U16(n) => range.contains(&BigInt::from(*n)),
                 Value::U32(n) => range.contains(&BigInt::from(*n)),
@@ -232,8 +234,8 @@ impl Value {
                 Value::Numeric(n) => range.contains(n.as_raw_value()),
                 _ => false,
             },
-            Pattern::Char(c0) => matches!(self, Value::Char(c1) if c0 == c1),
-            Pattern::Tuple(ps) => match self {
+            Pattern::Char(c0) => matches!(this, Value::Char(c1) if c0 == c1),
+            Pattern::Tuple(ps) => match this {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -244,7 +246,7 @@ impl Value {
                 }
                 _ => false,
             },
-            Pattern::Seq(ps) => match self {
+            Pattern::Seq(ps) => match this {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -255,12 +257,12 @@ impl Value {
                 }
                 _ => false,
             },
-            Pattern::Variant(label0, p) => match self {
+            Pattern::Variant(label0, p) => match this {
                 Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Option(None) => matches!(self, Value::Option(None)),
-            Pattern::Option(Some(p)) => match self {
+            Pattern::Option(None) => matches!(this, Value::Option(None)),
+            Pattern::Option(Some(p)) => match this {
                 Value::Option(Some(v)) => v.matches_inner(scope, p),
                 _ => false,
             },
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 6df7447..2bf582b 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -364,37 +364,39 @@ impl ParsedValue {
     }
 
     pub fn matches_inner(&self, scope: &mut LocMultiScope<'_>, pattern: &Pattern) -> bool {
+        // representation-only wrappers (e.g. `Mapped`, `Branch`, `Permit`) are not visible to patterns
+        let this = self.coerce_nominal_value();
         match pattern {
             Pattern::Binding(name) => {
                 scope.push(name.clone(), self.clone());
                 true
             }
             Pattern::Wildcard => true,
-            Pattern::Bool(b0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::Bool(b0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Bool(b1),
                     ..
                 }) if b0 == b1),
-            Pattern::U8(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U8(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U8(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::U16(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U16(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U16(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::U32(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U32(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U32(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::U64(i0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U64(i0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::U64(i1),
                     ..
                 }) if i0 == i1),
-            Pattern::Char(c0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::Char(c0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Char(c1),
                     ..
                 }) if c0 == c1),
-            Pattern::Tuple(ps) => match self {
+            Pattern::Tuple(ps) => match this {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -405,7 +407,7 @@ impl ParsedValue {
                 }
                 _ => false,
             },
-            Pattern::Seq(ps) => match self {
+            Pattern::Seq(ps) => match this {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -416,16 +418,16 @@ impl ParsedValue {
                 }
                 _ => false,
             },
-            Pattern::Variant(label0, p) => match self {
+            Pattern::Variant(label0, p) => match this {
                 ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
-            Pattern::Option(Some(p)) => match self {
+            Pattern::Option(None) => matches!(this, ParsedValue::Option(None)),
+            Pattern::Option(Some(p)) => match this {
                 ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Int(bounds) => match self {
+            Pattern::Int(bounds) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => bounds.contains(usize::from(*n)),
                     Value::U16(n) => bounds.contains(usize::from(*n)),
@@ -436,7 +438,7 @@ impl ParsedValue {
                 },
                 _ => false,
             },
-            Pattern::ZConst(z) => match self {
+            Pattern::ZConst(z) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => z == &BigInt::from(*n),
                     Value::U16(n) => z == &BigInt::from(*n),
@@ -448,7 +450,7 @@ impl ParsedValue {
                 },
                 _ => false,
             },
-            Pattern::ZRange(bounds) => match self {
+            Pattern::ZRange(bounds) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => bounds.contains(&BigInt::from(*n)),
                     Value::U16(n) => bounds.contains(&BigInt::from(*n)),
-- 
2.43.0


From d8dfcd239f826adea1c43d89056c3943dbecb563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:52 +0000
Subject: [PATCH 04/59] fix: lookahead past a repetition of a nullable format
 must not recurse forever

Compiling RepeatCount/RepeatUntil*/AccumUntil/ForEach over a format that may be
empty and contains a choice overflowed the stack. A Permit was also considered
non-empty although its fallback consumes nothing.
---
 src/codegen/typed_format.rs | 6 ++++--
 src/format.rs               | 6 +++++-
 src/lib.rs                  | 8 ++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index cba0d8e..4c198fb 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -481,9 +481,11 @@ impl TypedFormat<GenType> {
             }
             #[cfg(feature = "format_enforce")]
             TypedFormat::Enforce(.., inner) => inner.match_bounds(),
-            TypedFormat::Permit(.., inner, _) | TypedFormat::Hint(.., inner) => {
-                inner.match_bounds()
+            // NOTE - the fallback of a Permit does not consume anything
+            TypedFormat::Permit(.., inner, _) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds())
             }
+            TypedFormat::Hint(.., inner) => inner.match_bounds(),
             TypedFormat::LiftedOption(_, f) => {
                 f.as_ref().map_or(Bounds::exact(0), |f| f.match_bounds())
             }
diff --git a/src/format.rs b/src/format.rs
index 12f1662..17b2bfa 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -312,7 +312,11 @@ impl Format {
             Format::LetFormat(first, _, second) | Format::MonadSeq(first, second) => {
                 first.match_bounds(module) + second.match_bounds(module)
             }
-            Format::Permit(inner, ..) | Format::Hint(.., inner) => inner.match_bounds(module),
+            // NOTE - the fallback of a Permit does not consume anything
+            Format::Permit(inner, ..) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds(module))
+            }
+            Format::Hint(.., inner) => inner.match_bounds(module),
             #[cfg(feature = "format_enforce")]
             Format::Enforce(inner) => inner.match_bounds(module),
             Format::LiftedOption(opt) => match opt {
diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..bcbea8e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1663,6 +1663,14 @@ impl<'a> MatchTreeStep<'a> {
                 }
             }
             Next::Repeat(a, next0) => {
+                let is_nullable = match a {
+                    MaybeTyped::Untyped(f) => f.is_nullable(module),
+                    MaybeTyped::Typed(f) => f.is_nullable(),
+                };
+                if is_nullable {
+                    // NOTE - expanding a nullable repetition would recurse without ever consuming input
+                    return Self::accept();
+                }
                 let tree = MatchTreeStep::<'a>::from_next(module, next0.clone());
                 let next1 = next.clone();
                 tree.union(MatchTreeStep::<'a>::from_mt_format(module, *a, next1))
-- 
2.43.0


From ee7a402507ddca7e18641d9f34f600eefa195348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:24 +0000
Subject: [PATCH 05/59] fix: located RepeatUntilSeq must span the bytes it read

---
 src/loc_decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 2bf582b..421ca85 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1661,9 +1661,10 @@ impl Decoder {
                     })?;
                     break_if_done!(res => (v, input));
                 }
-                let total_len = input.offset - start_offset;
-                Ok(res
-                    .map(|(v, input, _)| (ParsedValue::new_seq(v, start_offset, total_len), input)))
+                Ok(res.map(|(v, input, _)| {
+                    let total_len = input.offset - start_offset;
+                    (ParsedValue::new_seq(v, start_offset, total_len), input)
+                }))
             }
             Decoder::AccumUntil(f_done, f_update, init, _vt, a) => {
                 let accum = init.eval_value_with_loc(scope);
-- 
2.43.0


From da1e6dfc126132009568a4282f85ea8ac9141c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:07 +0000
Subject: [PATCH 06/59] fix: located ForEach must look through wrapped
 sequences

---
 src/loc_decoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 421ca85..fd346d9 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1544,7 +1544,10 @@ impl Decoder {
                 .join(|(_, input)| db.parse_with_loc(program, scope, input)),
             Decoder::ForEach(expr, lbl, a) => {
                 let val = expr.eval_with_loc(scope);
-                let seq = val.get_sequence().expect("bad type for ForEach input");
+                let seq = val
+                    .coerce_nominal_value()
+                    .get_sequence()
+                    .expect("bad type for ForEach input");
                 Ok(WithErr::fold(
                     (Vec::with_capacity(seq.len()), input),
                     seq,
-- 
2.43.0


From f224295fd8fa39095b49733a6444d7697d303afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 07/59] fix: a named choice that may end early must be compiled
 against what follows it

---
 src/format.rs | 14 +++++++++-----
 src/lib.rs    |  6 ++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 17b2bfa..5729177 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -454,10 +454,11 @@ impl Format {
                 fmts.iter().any(|f| f.depends_on_next(module))
             }
             Format::Repeat(..) | Format::Repeat1(..) | Format::RepeatBetween(..) => true,
-            Format::RepeatCount(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
-                false
-            }
-            Format::AccumUntil(..) => false,
+            // NOTE - the last repetition is followed by whatever follows the whole
+            Format::RepeatCount(_, f)
+            | Format::RepeatUntilLast(_, f)
+            | Format::RepeatUntilSeq(_, f)
+            | Format::AccumUntil(.., f) => f.depends_on_next(module),
             Format::Maybe(..) => true,
             Format::Peek(..) | Format::PeekNot(..) => false,
             Format::Slice(..) => false,
@@ -492,7 +493,10 @@ impl Format {
             }
             fs.push(f.clone());
         }
-        MatchTree::build(module, &fs, Rc::new(Next::Empty)).is_none()
+        // the choice is independent of what follows only if no alternative can be complete at a
+        // point where another one is still being read
+        MatchTree::build(module, &fs, Rc::new(Next::Empty))
+            .is_none_or(|tree| tree.accepts_before_leaf())
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index bcbea8e..77fc747 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2305,6 +2305,12 @@ impl MatchTree {
     /// to within a fixed but externally opaque lookahead-depth.
     ///
     /// A `FormatModule` is also accepted to contextualize any contextually dependent formats, e.g. [`Format::ItemVar`]
+    /// Returns `true` if some node of the tree both accepts and has further branches.
+    fn accepts_before_leaf(&self) -> bool {
+        (self.accept.is_some() && !self.branches.is_empty())
+            || self.branches.iter().any(|(_, t)| t.accepts_before_leaf())
+    }
+
     fn build(module: &FormatModule, branches: &[Format], next: Rc<Next<'_>>) -> Option<MatchTree> {
         let mut nexts = HashSet::new();
         for (i, f) in branches.iter().enumerate() {
-- 
2.43.0


From d3e59617850723dd67beba12d78695b822719e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:18 +0000
Subject: [PATCH 08/59] fix: ByteSet::max_elem looked at the complement of the
 lower three quarters

---
 src/byte_set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_set.rs b/src/byte_set.rs
index 7c1c47b..7174841 100644
--- a/src/byte_set.rs
+++ b/src/byte_set.rs
@@ -108,13 +108,13 @@ impl ByteSet {
         if let Some(i) = max_set_bit(self.bits[3]) {
             return Some(0xc0 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[2]) {
+        if let Some(i) = max_set_bit(self.bits[2]) {
             return Some(0x80 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[1]) {
+        if let Some(i) = max_set_bit(self.bits[1]) {
             return Some(0x40 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[0]) {
+        if let Some(i) = max_set_bit(self.bits[0]) {
             return Some(i);
         }
         None
-- 
2.43.0


From 616a2d3d35c9489e18b2f42517631b1352570cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:17 +0000
Subject: [PATCH 09/59] fix: printing a byte set whose last range ends at 255
 overflowed

---
 src/byte_set/pretty_print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/byte_set/pretty_print.rs b/src/byte_set/pretty_print.rs
index 810b6c0..6246349 100644
--- a/src/byte_set/pretty_print.rs
+++ b/src/byte_set/pretty_print.rs
@@ -143,7 +143,7 @@ impl ByteSet {
         parts.into_iter().for_each(|(rank, mins)| {
             if rank >= THRESHOLD {
                 mins.into_iter().for_each(|lo| {
-                    tokens.push(format!("⟦{lo},{}⟧", lo + rank - 1));
+                    tokens.push(format!("⟦{lo},{}⟧", lo + (rank - 1)));
                 });
             } else {
                 for lo in mins {
-- 
2.43.0


From f1cffb79eefd0e14ed6d60700f627f3e31384e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:17 +0000
Subject: [PATCH 10/59] fix: reads in bits-mode must stop at a byte-mode limit

---
 src/parser/offset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..3c607bd 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -171,6 +171,9 @@ impl PartialOrd for ByteOffset {
             Ordering::Equal => match (o1, o2) {
                 (None, None) => Some(Ordering::Equal),
                 (Some(m1), Some(m2)) => Some(m1.cmp(&m2)),
+                // NOTE - at least one bit into a byte is strictly past the byte-boundary it started from
+                (Some(m1), None) if m1 > 0 => Some(Ordering::Greater),
+                (None, Some(m2)) if m2 > 0 => Some(Ordering::Less),
                 _ => None,
             },
             _ => Some(partial),
-- 
2.43.0


From 7d010dd941d88104c98b9041987b825677345c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:17 +0000
Subject: [PATCH 11/59] fix: an advance or slice of a huge size must be
 refused, not overflow

---
 src/parser/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 3c607bd..cdce0f7 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -70,13 +70,13 @@ impl ByteOffset {
 
     pub(crate) fn increment_by(&self, delta: usize) -> Self {
         match *self {
-            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes + delta),
+            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes.saturating_add(delta)),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
             } => Self::Bits {
                 starting_byte,
-                bits_advanced: bits_advanced + delta,
+                bits_advanced: bits_advanced.saturating_add(delta),
             },
         }
     }
-- 
2.43.0


From 0c36c5074037d528f14a07d338118687859fdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:17 +0000
Subject: [PATCH 12/59] fix: skipping the remainder must not leave bits-mode

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..33781c9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,9 @@ impl<'a> Parser<'a> {
     }
 
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        let current_offset = self.offset.get_current_offset();
+        // NOTE - counting from the current offset keeps us in the same (bits or bytes) mode as before
+        let after_skip = current_offset.increment_by(self.offset.rem_local());
         unsafe {
             self.offset.set_offset(after_skip);
         }
-- 
2.43.0


From 1c7bb21e8330e009a5250aa6e23c1f93bfce6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:17 +0000
Subject: [PATCH 13/59] fix: Pos and Align within a view are measured from the
 start of the entire buffer

---
 src/parser/mod.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 33781c9..8906281 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -164,21 +164,14 @@ impl<'a> Parser<'a> {
     /// assert_eq!(p.get_current_offset(), ByteOffset::Bytes(4));
     /// ```
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
-        let current_offset = self.offset.get_current_offset();
-        let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
-            ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
-
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
-            ByteOffset::Bits {
-                starting_byte,
-                bits_advanced,
-            } => ByteOffset::Bits {
-                starting_byte,
-                bits_advanced: (((bits_advanced / n) + 1) * n),
-            },
+        let position = match self.offset.get_current_offset() {
+            ByteOffset::Bytes(nbytes) => self.buffer.start_offset + nbytes,
+            ByteOffset::Bits { bits_advanced, .. } => bits_advanced,
+        };
+        let delta = match position % n {
+            0 => 0,
+            k => n - k,
         };
-        let delta = current_offset.delta(aligned_offset);
         self.offset.try_increment(delta)?;
         Ok(())
     }
@@ -345,15 +338,16 @@ impl<'a> Parser<'a> {
         self.offset.get_current_offset()
     }
 
-    /// Returns a `u64`-valued byte-offset equivalent to the stored `ByteOffset`, for
-    /// use in association with [`Format::Pos`].
+    /// Returns a `u64`-valued byte-offset equivalent to the stored `ByteOffset`, measured
+    /// from the start of the entire buffer (even when parsing a [`View`] of it), for use in
+    /// association with [`Format::Pos`].
     ///
     /// # Panics
     ///
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
-- 
2.43.0


From fbbeb523ec2e815dd8cd4d90d7df085e25af2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:28 +0000
Subject: [PATCH 14/59] fix: a view taken inside a slice must not reach past
 the slice

---
 src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8906281..59938a8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -35,7 +35,8 @@ impl<'a> Parser<'a> {
     }
 
     /// Creates a [`View`] starting from the current position in the Parser,
-    /// provided it is in Bytes-mode.
+    /// provided it is in Bytes-mode, and extending to the end of the current slice
+    /// (or of the entire buffer, if there is none).
     ///
     /// # Panics
     ///
@@ -44,7 +45,11 @@ impl<'a> Parser<'a> {
         let (cur_offset, None) = self.offset.get_current_offset().as_bytes() else {
             panic!("cannot open view while in bits-mode processing");
         };
-        self.buffer.offset(cur_offset).unwrap()
+        let (limit, _) = self.offset.current_limit().as_bytes();
+        View {
+            buffer: &self.buffer.buffer[cur_offset..limit],
+            start_offset: self.buffer.start_offset + cur_offset,
+        }
     }
 
     /// Advances the offset by `offset` positions, as if calling [`Self::read_byte`] that many
-- 
2.43.0


From 478998150f3f76204bcbac59696f09460e50c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:28 +0000
Subject: [PATCH 15/59] fix: seeking backwards inside a slice must keep the
 limit of the slice

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 59938a8..d6c6af0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -105,7 +105,7 @@ impl<'a> Parser<'a> {
                 self.offset.try_increment(delta)?;
                 true
             } else {
-                self.offset.seek_to_offset(o_dest, false)?;
+                self.offset.seek_to_offset(o_dest, true)?;
                 false
             };
         Ok(is_advance)
-- 
2.43.0


From 412dd7f7fa6c0d74869108955f83552a230975bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:39 +0000
Subject: [PATCH 16/59] fix: capturing more bytes than a view holds must be an
 error, not a panic

---
 generated/gencode.rs | 14 +++++++-------
 src/codegen/model.rs |  4 ++--
 src/parser/view.rs   | 19 ++++++++++++++-----
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..a95c39b 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8877,7 +8877,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -13775,7 +13775,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -14261,7 +14261,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -16409,7 +16409,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -21056,7 +21056,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21088,7 +21088,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21122,7 +21122,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..dede208 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -242,9 +242,9 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
     call!(parser, view)
 }
 
-/// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
+/// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model (Try-call).
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..e8298f5 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -24,15 +24,22 @@ impl<'a> View<'a> {
         }
     }
 
-    /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    /// Reads a slice of `len` bytes from the start of the View.
+    ///
+    /// Returns an error if the View is shorter than `len` bytes.
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer
+            .get(..len)
+            .ok_or(DoodleParseError::Overrun(OverrunKind::EndOfStream {
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(len)),
+                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+            }))
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
@@ -55,7 +62,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
-- 
2.43.0


From 58c55dd1bc3f613f057dad1913f2e26e69397188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:55 +0000
Subject: [PATCH 17/59] fix: generated choice must drop its branch-point once a
 branch succeeds

---
 generated/gencode.rs | 18 ++++++++++++++++++
 src/codegen/mod.rs   | 11 +++++++++--
 src/codegen/model.rs |  5 +++++
 src/parser/mod.rs    | 19 +++++++++++++++++--
 src/parser/offset.rs | 14 ++++++++++++++
 5 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index a95c39b..cc59791 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8614,6 +8614,7 @@ PResult::Ok(main_data::waldo(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8627,6 +8628,7 @@ PResult::Ok(main_data::peano(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8640,6 +8642,7 @@ PResult::Ok(main_data::gif(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8653,6 +8656,7 @@ PResult::Ok(main_data::tgz(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8666,6 +8670,7 @@ PResult::Ok(main_data::gzip(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8679,6 +8684,7 @@ PResult::Ok(main_data::jpeg(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8692,6 +8698,7 @@ PResult::Ok(main_data::mpeg4(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8705,6 +8712,7 @@ PResult::Ok(main_data::png(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8718,6 +8726,7 @@ PResult::Ok(main_data::riff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8731,6 +8740,7 @@ PResult::Ok(main_data::tiff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8744,6 +8754,7 @@ PResult::Ok(main_data::tar(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8757,6 +8768,7 @@ PResult::Ok(main_data::elf(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8770,6 +8782,7 @@ PResult::Ok(main_data::opentype(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8783,6 +8796,7 @@ PResult::Ok(main_data::numbers(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8796,6 +8810,7 @@ PResult::Ok(main_data::rle(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -14276,6 +14291,7 @@ PResult::Ok(text_maybe_gzip::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24530,6 +24546,7 @@ PResult::Ok(())
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24961,6 +24978,7 @@ PResult::Ok(png_itxt_text::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..31b5e2e 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3472,7 +3472,8 @@ where
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-                {
+                // NOTE - there is nothing to recover to if the first branch is also the last
+                if l > 1 {
                     let start_alternation = model::start_alt(ctxt.parser()).into();
                     stmts.push(start_alternation);
                 }
@@ -3481,7 +3482,13 @@ where
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut block = GenBlock::explicit_return(ret_expr);
+                            block.prepend_stmt(GenStmt::Embed(RustStmt::Expr(
+                                model::try_end_alt(ctxt.parser()),
+                            )));
+                            block
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index dede208..bc4834d 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -319,6 +319,11 @@ pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
 
+/// Model RustExpr for teardown of `Format::UnionNondet` parse-context in the Parser model (after a non-final branch succeeds).
+pub fn try_end_alt(parser: RustExpr) -> RustExpr {
+    try_call!(parser, end_alt)
+}
+
 // !SECTION
 
 // SECTION - boilerplate patterns based on incidental implementation details of codegen process
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d6c6af0..022eb33 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -300,11 +300,17 @@ impl<'a> Parser<'a> {
     /// let mut p = Parser::new(&buf);
     /// p.start_alt();
     /// match parse_a(&mut p) {
-    ///     Ok(result_a) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_a) => {
+    ///         p.end_alt()?; // the branch-point must not outlive the alternation
+    ///         return ...; // short circuit to escape future alternation branches
+    ///     }
     ///     Err(_) => p.next_alt(false)?, // the next branch, B, is not the last
     /// }
     /// match parse_b(&mut p) {
-    ///     Ok(result_b) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_b) => {
+    ///         p.end_alt()?;
+    ///         return ...; // short circuit to escape future alternation branches
+    ///     }
     ///     Err(_) => p.next_alt(true)?, // the next branch, C, is the last
     /// }
     /// match parse_c(&mut p) {
@@ -320,6 +326,15 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the latest 'Alts' context after one of its non-final branches was parsed successfully, so that a
+    /// later failure recovers to whichever branch-point encloses it instead.
+    ///
+    /// Will return an error if the innermost context is not an 'Alts' context.
+    pub fn end_alt(&mut self) -> Result<(), ParseError> {
+        self.offset.close_parallel()?;
+        Ok(())
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index cdce0f7..b6aa1c4 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -619,6 +619,20 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Removes the [`Lens::Alts`] at the top of the internal `ViewStack` after one of its branches succeeded,
+    /// without changing the current offset.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        let mut stack = ViewStack::new();
+        std::mem::swap(&mut stack, &mut self.view_stack);
+        match stack.escape() {
+            (stack, Some(Lens::Alts { .. })) => {
+                self.view_stack = stack;
+                Ok(())
+            }
+            _ => Err(StateError::NoRecovery),
+        }
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From 8bc7e8dc5f961bfcc8223e3a8755c089a82fc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:16 +0000
Subject: [PATCH 18/59] fix: a negated success must not leave its recovery
 point behind in generated code

---
 generated/gencode.rs |  5 ++---
 src/codegen/mod.rs   | 14 ++++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index cc59791..06c4e15 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -24602,9 +24602,8 @@ Err(_e)
 }
 }
 })())();
-if res.is_err() {
-_input.close_peek_not_context()?
-} else {
+_input.close_peek_not_context()?;
+if res.is_ok() {
 return Err(ParseError::NegatedSuccess);
 }
 };
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 31b5e2e..b1f9b03 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2939,13 +2939,15 @@ where
                 let open_peek_not = RustStmt::Expr(model::open_peek_not(ctxt.parser())).into();
                 let bind_res =
                     GenStmt::assign(model::PEEK_NOT_RES, cl_inner.to_ast(ctxt).abstracted_try());
-                let close_or_fail = GenExpr::Control(Box::new(RustControl::If(
-                    Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_err")),
-                    GenBlock::simple_expr(model::try_close_peek_not(ctxt.parser())),
-                    Some(GenBlock::explicit_return(model::err_bad_peek_not())),
+                // NOTE - the context is closed either way, so that an outer branch-point is what a negated success recovers to
+                let close_peek_not = RustStmt::Expr(model::try_close_peek_not(ctxt.parser())).into();
+                let fail_on_success = GenExpr::Control(Box::new(RustControl::If(
+                    Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_ok")),
+                    GenBlock::explicit_return(model::err_bad_peek_not()),
+                    None,
                 )));
-                let stmts = vec![open_peek_not, bind_res];
-                GenBlock::from_parts(stmts, Some(close_or_fail))
+                let stmts = vec![open_peek_not, bind_res, close_peek_not];
+                GenBlock::from_parts(stmts, Some(fail_on_success))
             }
             EngineLogic::Bits(cl_inner) => {
                 let enter_bits = RustStmt::Expr(model::ent_bits(ctxt.parser())).into();
-- 
2.43.0


From 6ba4b47fe9827e2f1acf354b94f7d48b8a3306e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:34 +0000
Subject: [PATCH 19/59] fix: generated Permit must give back what a failed
 parse consumed

---
 generated/gencode.rs |  3 +++
 src/codegen/mod.rs   | 19 ++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 06c4e15..53e0bce 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -11311,6 +11311,7 @@ None
 }
 };
 let dsig = {
+_input.start_alt();
 let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
@@ -11328,10 +11329,12 @@ PResult::Ok(None)
 })();
 match res {
 Ok(res) => {
+_input.end_alt()?;
 res
 },
 
 Err(err) => {
+_input.next_alt(true)?;
 log::error!("expect-level value assertion failed: {}", err);
 None
 }
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index b1f9b03..a01fdc2 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3618,13 +3618,26 @@ impl ToAst for DerivedLogic<GTExpr> {
             DerivedLogic::Permit(inner, expr) => {
                 let rhs = inner.to_ast(ctxt).abstracted_try();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                // NOTE - a failed parse must not consume anything, nor leave its own contexts open
+                let open_recovery = GenStmt::Embed(RustStmt::Expr(model::start_alt(ctxt.parser())));
+                let if_ok = {
+                    let mut block = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                    block.prepend_stmt(GenStmt::Embed(RustStmt::Expr(model::try_end_alt(
+                        ctxt.parser(),
+                    ))));
+                    block
+                };
                 let if_err = {
                     let (stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
-                    GenBlock::lift_block(stmts, expr)
+                    let mut block = GenBlock::lift_block(stmts, expr);
+                    block.prepend_stmt(GenStmt::Embed(RustStmt::Expr(model::try_next_alt(
+                        ctxt.parser(),
+                        true,
+                    ))));
+                    block
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
                     Box::new(RustExpr::local(model::PERMIT_BIND)),
@@ -3636,7 +3649,7 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let block = GenBlock::from_parts(vec![open_recovery, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
-- 
2.43.0


From f5bfb388f729891e8d59cd9a0f42213db2133212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:34 +0000
Subject: [PATCH 20/59] fix: generated repetitions must notice input exhausted
 below their minimum

---
 generated/gencode.rs | 39 +++++++++++++++++++++++++++++++++++++++
 src/codegen/mod.rs   | 15 +++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 53e0bce..2a47297 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8933,6 +8933,9 @@ let next_elem = (Decoder477(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -9053,6 +9056,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -9316,6 +9322,9 @@ let next_elem = (Decoder_png_idat(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 (try_flat_map_vec(xs.iter().cloned(), |x: png_idat| PResult::Ok(x.data.clone())))?
@@ -9538,6 +9547,9 @@ let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -14462,6 +14474,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -23656,6 +23671,9 @@ return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -23854,6 +23872,9 @@ return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 PResult::Ok(tar_ascii_string_opt0_nonempty { string })
@@ -24654,6 +24675,9 @@ gif_color_table_entry { r, g, b }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -26324,6 +26348,7 @@ return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -27301,6 +27326,7 @@ return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -28323,6 +28349,7 @@ return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -29300,6 +29327,7 @@ return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -30521,6 +30549,7 @@ return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -36334,6 +36363,9 @@ let next_elem = (Decoder_jpeg_dqt_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 })())?;
 _input.end_slice()?;
@@ -37934,6 +37966,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -37973,6 +38008,9 @@ let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -38938,6 +38976,7 @@ return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 0u16 as usize, 9u16 as usize))?;
 accum
 };
 let arg1 = {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index a01fdc2..b6a5fc7 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3056,6 +3056,13 @@ where
                     )
                 };
                 stmts.push(ctrl.into());
+                // NOTE - the loop also ends when the input is exhausted, which may be before the first element
+                let check_nonempty = GenControl::If(
+                    Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
+                    GenBlock::explicit_return(model::err_too_few()),
+                    None,
+                );
+                stmts.push(check_nonempty.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
             }
             RepeatLogic::BetweenCounts(reps_left_tree, expr_min, expr_max, elt) => {
@@ -3090,6 +3097,14 @@ where
                     )
                 };
                 stmts.push(ctrl.into());
+                // NOTE - the loop also ends when the input is exhausted, which may be before the minimum is reached
+                let check_enough = model::repeat_between_finished(
+                    RustExpr::TRUE,
+                    RustExpr::local(model::BETWEEN_ACCUM).vec_len(),
+                    expr_min.clone().cast_as_usize(),
+                    expr_max.clone().cast_as_usize(),
+                );
+                stmts.push(GenStmt::Embed(RustStmt::Expr(check_enough)));
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
             }
             RepeatLogic::ForEach(seq, lbl, inner) => {
-- 
2.43.0


From 0062ace3f627b7dc87ab13a3b966edc1f9919fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:44 +0000
Subject: [PATCH 21/59] fix: a slice, view or seek far past the end must be
 refused, not overflow

---
 src/decoder.rs     | 2 +-
 src/loc_decoder.rs | 2 +-
 src/read.rs        | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5dfdbca..5f9366d 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1516,7 +1516,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base = base_addr.eval_value(scope).unwrap_usize();
                 let offset = expr.eval_value(scope).unwrap_usize();
-                let abs_offset = base + offset;
+                let abs_offset = base.saturating_add(offset);
                 let seek_input = input.seek_to(abs_offset).ok_or(
                     DecodeErrorKind::bad_seek(abs_offset, input.input.len())
                         .with_trace("WithRelativeOffset(seek)"),
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index fd346d9..28e7fc0 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1756,7 +1756,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base_addr = base_addr.eval_value_with_loc(scope).unwrap_usize();
                 let offset = expr.eval_value_with_loc(scope).unwrap_usize();
-                let abs_offset = base_addr + offset;
+                let abs_offset = base_addr.saturating_add(offset);
                 let seek_input = input
                     .seek_to(abs_offset)
                     .ok_or(DecodeErrorKind::bad_seek(abs_offset, input.input.len()))?;
diff --git a/src/read.rs b/src/read.rs
index 49a348b..658fea9 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -47,13 +47,14 @@ impl<'a> ReadCtxt<'a> {
     /// Returns `None` if the specified position is out of bounds, i.e., if `offset + n`
     /// exceeds the length of the input.
     pub fn split_at(&self, n: usize) -> Option<(ReadCtxt<'a>, ReadCtxt<'a>)> {
-        if self.offset + n <= self.input.len() {
+        let end = self.offset.checked_add(n)?;
+        if end <= self.input.len() {
             let fst = ReadCtxt {
-                input: &self.input[..self.offset + n],
+                input: &self.input[..end],
                 ..*self
             };
             let snd = ReadCtxt {
-                offset: self.offset + n,
+                offset: end,
                 ..*self
             };
             Some((fst, snd))
-- 
2.43.0


From b26d85aaf4e1486db1cb947f57f85ddef3168ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:20 +0000
Subject: [PATCH 22/59] fix: an untrusted element count must not be allocated
 up front

---
 src/decoder.rs     | 8 ++++----
 src/loc_decoder.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5f9366d..8b2d6ab 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1346,7 +1346,7 @@ impl Decoder {
                 let val = expr.eval_value(scope);
                 let seq = val.get_sequence().expect("bad type for ForEach input");
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(seq.len()), input),
+                    (Vec::new(), input),
                     seq,
                     |(mut v, input), e| {
                         let new_scope = Scope::Single(SingleScope::new(scope, lbl, &e));
@@ -1362,7 +1362,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1625,7 +1625,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1647,7 +1647,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 28e7fc0..9fbd7d5 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1549,7 +1549,7 @@ impl Decoder {
                     .get_sequence()
                     .expect("bad type for ForEach input");
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(seq.len()), input),
+                    (Vec::new(), input),
                     seq,
                     |(mut v, input), e| {
                         let new_scope = LocScope::Single(LocSingleScope::new(scope, lbl, &e));
@@ -1568,7 +1568,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1855,7 +1855,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1882,7 +1882,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From 64be3d3d0f8a760610d6d0dc677c7c12240a1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 23/59] fix: report shift amounts that do not fit instead of
 reducing them silently

---
 src/decoder/value.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index b1c7f0f..3da9c6b 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -429,7 +429,7 @@ where
     T: num_traits::CheckedRem,
     T: num_traits::CheckedShl,
     T: num_traits::CheckedShr,
-    T: num_traits::AsPrimitive<u32>,
+    T: num_traits::ToPrimitive,
     T: std::ops::BitOr<Output = T>,
     T: std::ops::BitAnd<Output = T>,
 {
@@ -449,8 +449,14 @@ where
         Arith::Rem => left
             .checked_rem(&right)
             .unwrap_or_else(|| panic!("integer overflow")),
-        Arith::Shl => left << right.as_(),
-        Arith::Shr => left >> right.as_(),
+        Arith::Shl => right
+            .to_u32()
+            .and_then(|n| left.checked_shl(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
+        Arith::Shr => right
+            .to_u32()
+            .and_then(|n| left.checked_shr(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
         Arith::BitOr => left | right,
         Arith::BitAnd => left & right,
         Arith::BoolOr | Arith::BoolAnd => unreachable!("bool ops should be handled separately"),
-- 
2.43.0


From 6982ff857c8bbc7e4e0eef75c8699ad28a5ea81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:20 +0000
Subject: [PATCH 24/59] fix: byte-order casts and accumulator pairs see the
 nominal values of tuple elements

---
 src/decoder/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3da9c6b..e39662e 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -391,9 +391,13 @@ impl Value {
         }
     }
 
+    /// Returns the nominal values of the elements of a tuple.
     pub(crate) fn unwrap_tuple(self) -> Vec<Value> {
         match self {
-            Value::Tuple(values) => values,
+            Value::Tuple(values) => values
+                .into_iter()
+                .map(Value::extract_nominal_value)
+                .collect(),
             _ => panic!("value is not a tuple"),
         }
     }
-- 
2.43.0


From 1e0759ec56893a2b937ed5c93c3b9e03ea5d71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 25/59] fix: integer ranges behave like any other sequence in
 expressions and patterns

---
 src/decoder.rs          | 145 +++++++++++++++++++++-------------------
 src/decoder/search.rs   |   4 ++
 src/decoder/seq_kind.rs |  26 ++++---
 src/decoder/value.rs    |  61 ++++++++++++++++-
 src/loc_decoder.rs      | 144 +++++++++++++++------------------------
 5 files changed, 208 insertions(+), 172 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 8b2d6ab..8346e4a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -325,17 +325,23 @@ impl Expr {
             }
             Expr::Append(seq0, seq1) => {
                 match seq0.eval(scope).coerce_nominal_value().get_sequence() {
-                    Some(val_seq0) => match seq1.eval(scope).coerce_nominal_value().get_sequence() {
-                        Some(val_seq1) => {
-                            if val_seq0.is_empty() {
-                                return Cow::Owned(seq1.eval(scope).coerce_nominal_value().clone());
-                            } else if val_seq1.is_empty() {
-                                return Cow::Owned(seq0.eval(scope).coerce_nominal_value().clone());
+                    Some(val_seq0) => {
+                        match seq1.eval(scope).coerce_nominal_value().get_sequence() {
+                            Some(val_seq1) => {
+                                if val_seq0.is_empty() {
+                                    return Cow::Owned(
+                                        seq1.eval(scope).coerce_nominal_value().clone(),
+                                    );
+                                } else if val_seq1.is_empty() {
+                                    return Cow::Owned(
+                                        seq0.eval(scope).coerce_nominal_value().clone(),
+                                    );
+                                }
+                                Cow::Owned(Value::Seq(val_seq0.append(val_seq1)))
                             }
-                            Cow::Owned(Value::Seq(val_seq0.append(val_seq1)))
+                            _ => unreachable!("Append: expected Seq in (lhs)"),
                         }
-                        _ => unreachable!("Append: expected Seq in (lhs)"),
-                    },
+                    }
                     _ => unreachable!("Append: expected Seq in (lhs)"),
                 }
             }
@@ -344,16 +350,9 @@ impl Expr {
                     Some(values) => {
                         let mut vs = Vec::new();
                         for v in values {
-                            match expr.eval_lambda(scope, &v) {
-                                Value::Seq(vn) => {
-                                    vs.extend(vn);
-                                }
-                                Value::EnumFromTo(range) => {
-                                    vs.extend(range.map(Value::from));
-                                }
-                                _ => {
-                                    panic!("FlatMap: expected Seq (or EnumFromTo)");
-                                }
+                            match expr.eval_lambda(scope, &v).into_sequence() {
+                                Some(vn) => vs.extend(vn),
+                                None => panic!("FlatMap: expected Seq (or EnumFromTo)"),
                             }
                         }
                         Cow::Owned(Value::Seq(vs.into()))
@@ -361,37 +360,43 @@ impl Expr {
                     _ => panic!("FlatMap: expected Seq"),
                 }
             }
-            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
-                    let mut accum = accum.eval_value(scope);
-                    let mut vs = Vec::new();
-                    for v in values {
-                        let ret = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
-                        accum = match extract_pair(ret.unwrap_tuple()) {
-                            (accum, Value::Seq(vn)) => {
-                                vs.extend(vn);
-                                accum
+            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => {
+                match seq.eval_value(scope).into_sequence() {
+                    Some(values) => {
+                        let mut accum = accum.eval_value(scope);
+                        let mut vs = Vec::new();
+                        for v in values {
+                            let ret = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
+                            let (new_accum, vn) = extract_pair(ret.unwrap_tuple());
+                            match vn.into_sequence() {
+                                Some(vn) => vs.extend(vn),
+                                None => panic!("FlatMapAccum: expected two values"),
                             }
-                            _ => panic!("FlatMapAccum: expected two values"),
-                        };
+                            accum = new_accum;
+                        }
+                        Cow::Owned(Value::Seq(vs.into()))
                     }
-                    Cow::Owned(Value::Seq(vs.into()))
+                    _ => panic!("FlatMapAccum: expected Seq"),
                 }
-                _ => panic!("FlatMapAccum: expected Seq"),
-            },
-            Expr::LeftFold(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
-                    let mut accum = accum.eval_value(scope);
-                    for v in values {
-                        let tmp = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
-                        accum = tmp
+            }
+            Expr::LeftFold(expr, accum, _accum_type, seq) => {
+                match seq.eval_value(scope).into_sequence() {
+                    Some(values) => {
+                        let mut accum = accum.eval_value(scope);
+                        for v in values {
+                            let tmp = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
+                            accum = tmp
+                        }
+                        Cow::Owned(accum)
                     }
-                    Cow::Owned(accum)
+                    _ => panic!("LeftFold: expected Seq"),
                 }
-                _ => panic!("LeftFold: expected Seq"),
-            },
-            Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            }
+            Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => match seq
+                .eval_value(scope)
+                .into_sequence()
+            {
+                Some(values) => {
                     let query = query_key.eval_value(scope);
                     let eval = |lambda: &Expr, arg: &Value| lambda.eval_lambda(scope, arg);
                     if *is_sorted {
@@ -412,28 +417,30 @@ impl Expr {
                 }
                 _ => panic!("FindByKey: expected Seq"),
             },
-            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
-                    let mut vs = Vec::new();
-                    for v in values {
-                        let arg = Value::Tuple(vec![Value::Seq(SeqKind::Strict(vs)), v]);
-                        if let Value::Seq(vn) = expr.eval_lambda(scope, &arg) {
-                            vs = match arg {
-                                Value::Tuple(mut args) => match args.remove(0) {
-                                    Value::Seq(vs) => vs.into_vec(),
+            Expr::FlatMapList(expr, _ret_type, seq) => {
+                match seq.eval_value(scope).into_sequence() {
+                    Some(values) => {
+                        let mut vs = Vec::new();
+                        for v in values {
+                            let arg = Value::Tuple(vec![Value::Seq(SeqKind::Strict(vs)), v]);
+                            if let Some(vn) = expr.eval_lambda(scope, &arg).into_sequence() {
+                                vs = match arg {
+                                    Value::Tuple(mut args) => match args.remove(0) {
+                                        Value::Seq(vs) => vs.into_vec(),
+                                        _ => unreachable!(),
+                                    },
                                     _ => unreachable!(),
-                                },
-                                _ => unreachable!(),
-                            };
-                            vs.extend(vn);
-                        } else {
-                            panic!("FlatMapList: expected Seq");
+                                };
+                                vs.extend(vn);
+                            } else {
+                                panic!("FlatMapList: expected Seq");
+                            }
                         }
+                        Cow::Owned(Value::Seq(vs.into()))
                     }
-                    Cow::Owned(Value::Seq(vs.into()))
+                    _ => panic!("FlatMapList: expected Seq"),
                 }
-                _ => panic!("FlatMapList: expected Seq"),
-            },
+            }
             Expr::Dup(count, expr) => {
                 let count = count.eval_value(scope).unwrap_usize();
                 let v = expr.eval_value(scope);
@@ -1361,10 +1368,8 @@ impl Decoder {
             }
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
-                Ok(WithErr::fold(
-                    (Vec::new(), input),
-                    0..count,
-                    |(mut v, input), _| {
+                Ok(
+                    WithErr::fold((Vec::new(), input), 0..count, |(mut v, input), _| {
                         Ok(
                             try_with!(a.parse(program, scope, input) => ("RepeatCount", v.len()))
                                 .map(|(va, next_input)| {
@@ -1372,9 +1377,9 @@ impl Decoder {
                                     (v, next_input)
                                 }),
                         )
-                    },
-                )?
-                .map(|(v, input)| (Value::Seq(v.into()), input)))
+                    })?
+                    .map(|(v, input)| (Value::Seq(v.into()), input)),
+                )
             }
             Decoder::RepeatBetween(reps_left_tree, min, max, a) => {
                 let min = min.eval_value(scope).unwrap_usize();
diff --git a/src/decoder/search.rs b/src/decoder/search.rs
index 79c543d..e81ecde 100644
--- a/src/decoder/search.rs
+++ b/src/decoder/search.rs
@@ -22,6 +22,9 @@ impl AsKey for Value {
             (Value::U16(a), Value::U16(b)) => a.cmp(b),
             (Value::U32(a), Value::U32(b)) => a.cmp(b),
             (Value::U64(a), Value::U64(b)) => a.cmp(b),
+            // NOTE - elements of an integer range are stored without their type
+            (Value::Usize(a), b) if b.is_machine_int() => a.cmp(&b.unwrap_usize()),
+            (a, Value::Usize(b)) if a.is_machine_int() => a.unwrap_usize().cmp(b),
             _ => panic!("Value::compare_as_key: Can't compare {self:?} and {other:?} as keys"),
         }
     }
@@ -32,6 +35,7 @@ impl AsKey for Value {
             (Value::U16(a), Value::U16(b)) => a == b,
             (Value::U32(a), Value::U32(b)) => a == b,
             (Value::U64(a), Value::U64(b)) => a == b,
+            (Value::Usize(_), _) | (_, Value::Usize(_)) => self.compare_as_key(other).is_eq(),
             _ => panic!("Value::eq_key: can't compare {self:?} and {other:?} as keys"),
         }
     }
diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..5065acf 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -22,6 +22,20 @@ pub enum ValueSeq<'a, V: Clone = super::Value> {
     IntRange(std::ops::Range<usize>),
 }
 
+impl<'a, V: Clone + From<usize>> ValueSeq<'a, V> {
+    /// Forcibly convert to a sequence of values, expanding any integer range.
+    pub fn into_seq_kind(self) -> SeqKind<V> {
+        match self {
+            ValueSeq::ValueSeq(vs) => vs.clone(),
+            ValueSeq::IntRange(range) => range.map(V::from).collect(),
+        }
+    }
+
+    pub fn append(self, other: Self) -> SeqKind<V> {
+        self.into_seq_kind().append(other.into_seq_kind())
+    }
+}
+
 impl<'a, V: Clone> ValueSeq<'a, V> {
     pub fn len(&self) -> usize {
         match self {
@@ -36,16 +50,6 @@ impl<'a, V: Clone> ValueSeq<'a, V> {
             ValueSeq::IntRange(r) => r.is_empty(),
         }
     }
-
-    pub fn append(self, other: Self) -> SeqKind<V> {
-        if matches!(self, ValueSeq::IntRange(..)) | matches!(other, ValueSeq::IntRange(..)) {
-            unimplemented!("appending int ranges");
-        }
-        match (self, other) {
-            (ValueSeq::ValueSeq(v1), ValueSeq::ValueSeq(v2)) => (*v1).clone().append((*v2).clone()),
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) fn sub_range(
@@ -54,7 +58,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start + len <= range.len(),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index e39662e..cd82f06 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -189,21 +189,25 @@ impl Value {
             Pattern::Bool(b0) => matches!(this, Value::Bool(b1) if b0 == b1),
             Pattern::U8(i0) => match this {
                 Value::U8(i1) if i0 == i1 => true,
+                Value::Usize(i1) => usize::try_from(*i0).is_ok_and(|i0| i0 == *i1),
                 Value::Numeric(n) => n.matches_u8(*i0),
                 _ => false,
             },
             Pattern::U16(i0) => match this {
                 Value::U16(i1) if i0 == i1 => true,
+                Value::Usize(i1) => usize::try_from(*i0).is_ok_and(|i0| i0 == *i1),
                 Value::Numeric(n) => n.matches_u16(*i0),
                 _ => false,
             },
             Pattern::U32(i0) => match this {
                 Value::U32(i1) if i0 == i1 => true,
+                Value::Usize(i1) => usize::try_from(*i0).is_ok_and(|i0| i0 == *i1),
                 Value::Numeric(n) => n.matches_u32(*i0),
                 _ => false,
             },
             Pattern::U64(i0) => match this {
                 Value::U64(i1) if i0 == i1 => true,
+                Value::Usize(i1) => usize::try_from(*i0).is_ok_and(|i0| i0 == *i1),
                 Value::Numeric(n) => n.matches_u64(*i0),
                 _ => false,
             },
@@ -255,6 +259,20 @@ impl Value {
                     }
                     true
                 }
+                Value::EnumFromTo(range) if ps.len() == range.len() => {
+                    for (p, n) in Iterator::zip(ps.iter(), range.clone()) {
+                        match p {
+                            Pattern::Binding(name) => scope.push_owned(name.clone(), n.into()),
+                            // NOTE - no other pattern can bind anything when matched against a number
+                            _ => {
+                                if Value::from(n).matches(&Scope::Empty, p).is_none() {
+                                    return false;
+                                }
+                            }
+                        }
+                    }
+                    true
+                }
                 _ => false,
             },
             Pattern::Variant(label0, p) => match this {
@@ -339,6 +357,22 @@ impl Value {
         }
     }
 
+    /// Returns the sequence a value represents, expanding any integer range.
+    pub(crate) fn into_sequence(self) -> Option<SeqKind<Self>> {
+        match self {
+            Value::Seq(elts) => Some(elts),
+            Value::EnumFromTo(range) => Some(range.map(Value::from).collect()),
+            _ => None,
+        }
+    }
+
+    pub(crate) fn is_machine_int(&self) -> bool {
+        matches!(
+            self,
+            Value::U8(_) | Value::U16(_) | Value::U32(_) | Value::U64(_) | Value::Usize(_)
+        )
+    }
+
     pub(crate) fn is_boolean(&self) -> bool {
         matches!(self.coerce_mapped_value(), Value::Bool(_))
     }
@@ -491,8 +525,31 @@ where
 }
 
 impl Value {
-    pub fn int_rel(rel: IntRel, left: Value, right: Value) -> Value {
+    /// Gives an element of an integer range, which is stored without its type, the type of the
+    /// other operand of a binary operation.
+    pub(crate) fn unify_range_element(left: Value, right: Value) -> (Value, Value) {
+        fn typed_as(n: usize, other: &Value) -> Value {
+            let ret = match other {
+                Value::U8(_) => n.try_into().ok().map(Value::U8),
+                Value::U16(_) => n.try_into().ok().map(Value::U16),
+                Value::U32(_) => n.try_into().ok().map(Value::U32),
+                Value::U64(_) => n.try_into().ok().map(Value::U64),
+                _ => None,
+            };
+            ret.unwrap_or(Value::Usize(n))
+        }
         match (left, right) {
+            (Value::Usize(n), right) => (typed_as(n, &right), right),
+            (left, Value::Usize(n)) => {
+                let right = typed_as(n, &left);
+                (left, right)
+            }
+            pair => pair,
+        }
+    }
+
+    pub fn int_rel(rel: IntRel, left: Value, right: Value) -> Value {
+        match Self::unify_range_element(left, right) {
             (Value::U8(l), Value::U8(r)) => Value::Bool(__rel(rel, l, r)),
             (Value::U16(l), Value::U16(r)) => Value::Bool(__rel(rel, l, r)),
             (Value::U32(l), Value::U32(r)) => Value::Bool(__rel(rel, l, r)),
@@ -576,7 +633,7 @@ impl Value {
                 }
             }
         } else {
-            match (left, right) {
+            match Self::unify_range_element(left, right) {
                 (Value::U8(l), Value::U8(r)) => Value::U8(__arith(arith, l, r)),
                 (Value::U16(l), Value::U16(r)) => Value::U16(__arith(arith, l, r)),
                 (Value::U32(l), Value::U32(r)) => Value::U32(__arith(arith, l, r)),
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 9fbd7d5..093ff39 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1,15 +1,14 @@
 use std::borrow::Cow;
 use std::cmp::Ordering;
 
-use num_bigint::BigInt;
 use serde::Serialize;
 
 use crate::byte_set::ByteSet;
 use crate::decoder::View;
 use crate::decoder::break_if_done;
 use crate::decoder::{
-    Compiler, Decoder, Program, ScopeEntry, SeqKind, UnknownVarError, Value, ValueSeq, cow_map,
-    cow_remap, extract_pair,
+    Compiler, Decoder, Program, Scope, ScopeEntry, SeqKind, UnknownVarError, Value, ValueSeq,
+    cow_map, cow_remap, extract_pair,
     search::{find_index_by_key_sorted, find_index_by_key_unsorted},
     seq_kind::sub_range,
 };
@@ -376,22 +375,18 @@ impl ParsedValue {
                     inner: Value::Bool(b1),
                     ..
                 }) if b0 == b1),
-            Pattern::U8(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U8(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U16(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U16(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U32(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U32(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U64(i0) => matches!(this, ParsedValue::Flat(Parsed {
-                    inner: Value::U64(i1),
-                    ..
-                }) if i0 == i1),
+            Pattern::U8(_)
+            | Pattern::U16(_)
+            | Pattern::U32(_)
+            | Pattern::U64(_)
+            | Pattern::Int(_)
+            | Pattern::ZConst(_)
+            | Pattern::ZRange(_) => match this {
+                ParsedValue::Flat(Parsed { inner, .. }) => {
+                    inner.matches(&Scope::Empty, pattern).is_some()
+                }
+                _ => false,
+            },
             Pattern::Char(c0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Char(c1),
                     ..
@@ -416,6 +411,11 @@ impl ParsedValue {
                     }
                     true
                 }
+                ParsedValue::Flat(Parsed {
+                    inner: Value::EnumFromTo(range),
+                    ..
+                }) if ps.len() == range.len() => Iterator::zip(ps.iter(), range.clone())
+                    .all(|(p, n)| ParsedValue::from(n).matches_inner(scope, p)),
                 _ => false,
             },
             Pattern::Variant(label0, p) => match this {
@@ -427,41 +427,6 @@ impl ParsedValue {
                 ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Int(bounds) => match this {
-                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
-                    Value::U8(n) => bounds.contains(usize::from(*n)),
-                    Value::U16(n) => bounds.contains(usize::from(*n)),
-                    Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
-                    Value::U64(n) => bounds.contains(usize::try_from(*n).unwrap()),
-                    Value::Usize(n) => bounds.contains(*n),
-                    _ => false,
-                },
-                _ => false,
-            },
-            Pattern::ZConst(z) => match this {
-                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
-                    Value::U8(n) => z == &BigInt::from(*n),
-                    Value::U16(n) => z == &BigInt::from(*n),
-                    Value::U32(n) => z == &BigInt::from(*n),
-                    Value::U64(n) => z == &BigInt::from(*n),
-                    Value::Usize(n) => z == &BigInt::from(*n),
-                    Value::Numeric(tc) => tc.eq_num(z),
-                    _ => false,
-                },
-                _ => false,
-            },
-            Pattern::ZRange(bounds) => match this {
-                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
-                    Value::U8(n) => bounds.contains(&BigInt::from(*n)),
-                    Value::U16(n) => bounds.contains(&BigInt::from(*n)),
-                    Value::U32(n) => bounds.contains(&BigInt::from(*n)),
-                    Value::U64(n) => bounds.contains(&BigInt::from(*n)),
-                    Value::Usize(n) => bounds.contains(&BigInt::from(*n)),
-                    Value::Numeric(tc) => bounds.contains(tc.as_raw_value()),
-                    _ => false,
-                },
-                _ => false,
-            },
         }
     }
 
@@ -812,6 +777,10 @@ impl Expr {
                         char::from_u32(u32::try_from(x).unwrap())
                             .unwrap_or(char::REPLACEMENT_CHARACTER),
                     ),
+                    Value::Usize(x) => Value::Char(
+                        char::from_u32(u32::try_from(x).unwrap())
+                            .unwrap_or(char::REPLACEMENT_CHARACTER),
+                    ),
                     _ => panic!("AsChar: expected U8, U16, U32, or U64"),
                 },
             )),
@@ -935,7 +904,7 @@ impl Expr {
                     Some(values) => {
                         let mut vs: Vec<Value> = Vec::new();
                         for v in values {
-                            if let Value::Seq(vn) = expr.eval_lambda_with_loc(scope, &v) {
+                            if let Some(vn) = expr.eval_lambda_with_loc(scope, &v).into_sequence() {
                                 vs.extend(vn);
                             } else {
                                 panic!("FlatMap: expected Seq");
@@ -962,13 +931,12 @@ impl Expr {
                                 v.clone_into_value(),
                             ])),
                         );
-                        accum = match extract_pair(ret.unwrap_tuple()) {
-                            (accum, Value::Seq(vn)) => {
-                                vs.extend(vn);
-                                accum
-                            }
-                            other => panic!("FlatMapAccum: bad lambda output type {other:?}"),
-                        };
+                        let (new_accum, vn) = extract_pair(ret.unwrap_tuple());
+                        match vn.into_sequence() {
+                            Some(vn) => vs.extend(vn),
+                            None => panic!("FlatMapAccum: bad lambda output type"),
+                        }
+                        accum = new_accum;
                     }
                     Cow::Owned(ParsedValue::from_evaluated(Value::Seq(vs.into())))
                 }
@@ -1001,7 +969,8 @@ impl Expr {
                     .coerce_nominal_value()
                     .get_sequence()
                 {
-                    Some(ValueSeq::ValueSeq(values)) => {
+                    Some(values) => {
+                        let values = &values.into_seq_kind();
                         let eval =
                             |lambda: &Expr, v: &ParsedValue| lambda.eval_lambda_with_loc(scope, v);
                         let query = query_key.eval_value_with_loc(scope);
@@ -1025,20 +994,21 @@ impl Expr {
                             }
                         }
                     }
-                    Some(ValueSeq::IntRange(_)) => {
-                        unimplemented!("FindByKey: unimplemented on IntRange")
-                    }
                     None => panic!("FindByKey: expected Seq"),
                 }
             }
-            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value_with_loc(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapList(expr, _ret_type, seq) => match seq
+                .eval_value_with_loc(scope)
+                .into_sequence()
+            {
+                Some(values) => {
                     let mut vs = Vec::new();
                     for v in values {
                         let arg = Value::Tuple(vec![Value::Seq(vs.into()), v]);
                         // TODO can we avoid cloning arg here?
-                        if let Value::Seq(vn) = expr
+                        if let Some(vn) = expr
                             .eval_lambda_with_loc(scope, &ParsedValue::from_evaluated(arg.clone()))
+                            .into_sequence()
                         {
                             vs = match arg {
                                 Value::Tuple(mut args) => match args.remove(0) {
@@ -1548,40 +1518,36 @@ impl Decoder {
                     .coerce_nominal_value()
                     .get_sequence()
                     .expect("bad type for ForEach input");
-                Ok(WithErr::fold(
-                    (Vec::new(), input),
-                    seq,
-                    |(mut v, input), e| {
+                Ok(
+                    WithErr::fold((Vec::new(), input), seq, |(mut v, input), e| {
                         let new_scope = LocScope::Single(LocSingleScope::new(scope, lbl, &e));
                         Ok(a.parse_with_loc(program, &new_scope, input)?
                             .map(|(va, next_input)| {
                                 v.push(va);
                                 (v, next_input)
                             }))
-                    },
-                )?
-                .map(|(v, input)| {
-                    let total_len = input.offset - start_offset;
-                    (ParsedValue::new_seq(v, start_offset, total_len), input)
-                }))
+                    })?
+                    .map(|(v, input)| {
+                        let total_len = input.offset - start_offset;
+                        (ParsedValue::new_seq(v, start_offset, total_len), input)
+                    }),
+                )
             }
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
-                Ok(WithErr::fold(
-                    (Vec::new(), input),
-                    0..count,
-                    |(mut v, input), _| {
+                Ok(
+                    WithErr::fold((Vec::new(), input), 0..count, |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
                             .map(|(va, next_input)| {
                                 v.push(va);
                                 (v, next_input)
                             }))
-                    },
-                )?
-                .map(|(v, input)| {
-                    let total_len = input.offset - start_offset;
-                    (ParsedValue::new_seq(v, start_offset, total_len), input)
-                }))
+                    })?
+                    .map(|(v, input)| {
+                        let total_len = input.offset - start_offset;
+                        (ParsedValue::new_seq(v, start_offset, total_len), input)
+                    }),
+                )
             }
             Decoder::RepeatBetween(reps_left_tree, min, max, a) => {
                 let min = min.eval_value_with_loc(scope).unwrap_usize();
-- 
2.43.0


From 445d025a542ec69b869eec0879709f71e9a5c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:51 +0000
Subject: [PATCH 26/59] fix: code lengths that admit no prefix code must fail
 to decode, not be accepted or panic

---
 src/decoder.rs     | 17 ++++++++++++++---
 src/loc_decoder.rs | 18 +++++++++++++++---
 src/prelude.rs     | 11 +++++++++--
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 8346e4a..1fd20eb 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1752,20 +1752,21 @@ fn read_base(
 }
 
 fn value_to_vec_usize(v: &Value) -> Vec<usize> {
-    let vs = match v {
+    let vs = match v.coerce_nominal_value() {
         Value::Seq(vs) => vs,
         _ => panic!("expected Seq"),
     };
     vs.iter()
         .map(|v| match v.coerce_nominal_value() {
             Value::U8(n) => *n as usize,
-            _ => panic!("expected U8"),
+            Value::U16(n) => *n as usize,
+            _ => panic!("expected U8 or U16"),
         })
         .collect::<Vec<usize>>()
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -1774,11 +1775,18 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
 
     let mut next_code = [0].repeat(max_length + 1);
     let mut code = 0;
+    let mut available: usize = 1;
     bl_count[0] = 0;
 
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        available = available.saturating_mul(2);
+        if bl_count[bits] > available {
+            // over-subscribed: no prefix code has these lengths, so nothing can be decoded
+            return Format::Fail;
+        }
+        available -= bl_count[bits];
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
@@ -1799,6 +1807,9 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
         }
     }
 
+    if codes.is_empty() {
+        return Format::Fail;
+    }
     Format::Union(codes)
 }
 
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 093ff39..becf604 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1954,20 +1954,22 @@ fn read_base(
 }
 
 fn value_to_vec_usize(v: &ParsedValue) -> Vec<usize> {
-    let vs = match v.clone_into_value() {
+    let v = v.clone_into_value();
+    let vs = match v.coerce_nominal_value() {
         Value::Seq(vs) => vs,
         _ => panic!("expected Seq"),
     };
     vs.iter()
         .map(|v| match v.coerce_nominal_value() {
             Value::U8(n) => *n as usize,
-            _ => panic!("expected U8"),
+            Value::U16(n) => *n as usize,
+            _ => panic!("expected U8 or U16"),
         })
         .collect::<Vec<usize>>()
 }
 
 fn make_huffman_codes(lengths: &[usize]) -> Format {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -1976,11 +1978,18 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
 
     let mut next_code = [0].repeat(max_length + 1);
     let mut code = 0;
+    let mut available: usize = 1;
     bl_count[0] = 0;
 
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        available = available.saturating_mul(2);
+        if bl_count[bits] > available {
+            // over-subscribed: no prefix code has these lengths, so nothing can be decoded
+            return Format::Fail;
+        }
+        available -= bl_count[bits];
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
@@ -2001,6 +2010,9 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
         }
     }
 
+    if codes.is_empty() {
+        return Format::Fail;
+    }
     Format::Union(codes)
 }
 
diff --git a/src/prelude.rs b/src/prelude.rs
index 4c218d9..7833ff6 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -301,7 +301,7 @@ where
 pub fn make_huffman_decoder(
     lengths: &[usize],
 ) -> PResult<impl for<'a> Fn(&mut Parser<'a>) -> PResult<u16> + use<>> {
-    let max_length = *lengths.iter().max().unwrap();
+    let max_length = lengths.iter().copied().max().unwrap_or(0);
     let mut bl_count = [0].repeat(max_length + 1);
 
     for len in lengths {
@@ -399,7 +399,10 @@ pub(crate) mod huffman {
             match self {
                 HuffmanNode::Empty => Err(DescentError::FromEmpty),
                 HuffmanNode::Leaf(_) => Err(DescentError::FromLeaf),
-                HuffmanNode::Branch { children } => Ok(&*children[b as usize]),
+                HuffmanNode::Branch { children } => children
+                    .get(b as usize)
+                    .map(|child| &**child)
+                    .ok_or(DescentError::NotABit),
             }
         }
     }
@@ -408,6 +411,7 @@ pub(crate) mod huffman {
     pub enum DescentError {
         FromLeaf,
         FromEmpty,
+        NotABit,
     }
 
     impl std::fmt::Display for DescentError {
@@ -415,6 +419,9 @@ pub(crate) mod huffman {
             match self {
                 DescentError::FromLeaf => write!(f, "attempted to descend from a leaf node"),
                 DescentError::FromEmpty => write!(f, "attempted to descend from an empty node"),
+                DescentError::NotABit => {
+                    write!(f, "attempted to descend along a byte that is not a bit")
+                }
             }
         }
     }
-- 
2.43.0


From ecb579c9fe612f454b15fbe2d1a0bc75864b7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:49 +0000
Subject: [PATCH 27/59] fix: negating, taking the magnitude of or dividing the
 least signed value must report the exact result

---
 src/numeric/eval.rs | 64 ++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index 4f4cdca..659ba3b 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -120,15 +120,30 @@ macro_rules! homogenous {
     };
 }
 
-/// Macro for bulk definition of homogenously typed binary operations with a quotient version provided by a trait (`num_traits`), where None indicates NaN
+/// Result of a division that yields no value of the output type: `NaN` for a zero divisor, otherwise an out-of-range quotient
+fn div_failed<T>(lhs: BigInt, rhs: BigInt) -> Eval<T> {
+    match lhs.checked_div(&rhs) {
+        Some(res) => Eval::Indirect(IndirectEval {
+            value: Rc::new(LazyCell::new(Box::new(move || res))),
+        }),
+        None => Eval::NaN,
+    }
+}
+
+/// Result of a remainder that yields no value of the output type, which can only be due to a non-positive divisor
+fn rem_failed<T>(_lhs: BigInt, _rhs: BigInt) -> Eval<T> {
+    Eval::NaN
+}
+
+/// Macro for bulk definition of homogenously typed binary operations with a quotient version provided by a trait (`num_traits`), where the fallback function decides what None indicates
 macro_rules! homogenous_quotient {
-    ( $( $tr:ident, $meth:ident => $( ( $fname:ident, $t:ty ) ),+ $(,)? );+ $(;)? ) => {
+    ( $( $tr:ident, $meth:ident, $failed:ident => $( ( $fname:ident, $t:ty ) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 pub fn $fname(lhs: $t, rhs: $t) -> Eval<$t> {
                     match <$t as $tr>::$meth(&lhs, &rhs) {
                         Some(res) => Eval::Direct(res),
-                        None => Eval::NaN,
+                        None => $failed(BigInt::from(lhs), BigInt::from(rhs)),
                     }
                 }
             )*
@@ -155,14 +170,14 @@ macro_rules! widening {
 }
 
 macro_rules! widening_quotient {
-    ( $( $tr:ident, $meth:ident => $( ( $in_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
+    ( $( $tr:ident, $meth:ident, $failed:ident => $( ( $in_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 $(
                     pub fn $fname(lhs: $in_t, rhs: $in_t) -> Eval<$out_t> {
                         match <$out_t as $tr>::$meth(&(lhs as $out_t), &(rhs as $out_t)) {
                             Some(res) => Eval::Direct(res),
-                            None => Eval::NaN,
+                            None => $failed(BigInt::from(lhs), BigInt::from(rhs)),
                         }
                     }
                 )*
@@ -190,14 +205,14 @@ macro_rules! mixed_widening {
 }
 
 macro_rules! mixed_widening_quotient {
-    ( $( $tr:ident, $meth:ident => $( ( $left_t:ty, $right_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
+    ( $( $tr:ident, $meth:ident, $failed:ident => $( ( $left_t:ty, $right_t:ty => $( ( $fname:ident, $out_t:ty ) ),+ $(,)? ) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 $(
                     pub fn $fname(lhs: $left_t, rhs: $right_t) -> Eval<$out_t> {
                         match <$out_t as $tr>::$meth(&(lhs as $out_t), &(rhs as $out_t)) {
                             Some(res) => Eval::Direct(res),
-                            None => Eval::NaN,
+                            None => $failed(BigInt::from(lhs), BigInt::from(rhs)),
                         }
                     }
                 )*
@@ -242,7 +257,7 @@ homogenous! {
 // (T, T) -> T binary operations involving quotients (failure is NaN)
 // Responsible for 16 function definitions
 homogenous_quotient! {
-    CheckedDiv, checked_div =>
+    CheckedDiv, checked_div, div_failed =>
         (div_u8, u8),
         (div_u16, u16),
         (div_u32, u32),
@@ -251,7 +266,7 @@ homogenous_quotient! {
         (div_i16, i16),
         (div_i32, i32),
         (div_i64, i64);
-    CheckedRem, checked_rem =>
+    CheckedRem, checked_rem, rem_failed =>
         (rem_u8, u8),
         (rem_u16, u16),
         (rem_u32, u32),
@@ -294,7 +309,7 @@ widening! {
 // (T0, T0) -> T1 binary operations where the values of T0 are a subset of T1 and failure indicates NaN
 // Responsible for 28 function definitions
 widening_quotient! {
-    CheckedDiv, checked_div =>
+    CheckedDiv, checked_div, div_failed =>
         // 14 functions
         (u8 => (div_u8_u16, u16), (div_u8_u32, u32), (div_u8_u64, u64), (div_u8_i16, i16), (div_u8_i32, i32), (div_u8_i64, i64)),
         (u16 => (div_u16_u32, u32), (div_u16_u64, u64), (div_u16_i32, i32), (div_u16_i64, i64)),
@@ -302,7 +317,7 @@ widening_quotient! {
         (i8 => (div_i8_i16, i16), (div_i8_i32, i32), (div_i8_i64, i64)),
         (i16 => (div_i16_i32, i32), (div_i16_i64, i64)),
         (i32 => (div_i32_i64, i64));
-    CheckedRem, checked_rem =>
+    CheckedRem, checked_rem, rem_failed =>
         // 14 functions
         (u8 => (rem_u8_u16, u16), (rem_u8_u32, u32), (rem_u8_u64, u64), (rem_u8_i16, i16), (rem_u8_i32, i32), (rem_u8_i64, i64)), // 6
         (u16 => (rem_u16_u32, u32), (rem_u16_u64, u64), (rem_u16_i32, i32), (rem_u16_i64, i64)), // 4
@@ -446,7 +461,7 @@ mixed_widening! {
 
 // Responsible for 140 functions
 mixed_widening_quotient! {
-    CheckedDiv, checked_div =>
+    CheckedDiv, checked_div, div_failed =>
         // <= Bits8 (6 functions)
         (u8, i8 => (div_u8_i8_i16, i16), (div_u8_i8_i32, i32), (div_u8_i8_i64, i64)),
         (i8, u8 => (div_i8_u8_i16, i16), (div_i8_u8_i32, i32), (div_i8_u8_i64, i64)),
@@ -490,7 +505,7 @@ mixed_widening_quotient! {
         (u32, i32 => (div_u32_i32_i64, i64)),
         (i32, u32 => (div_i32_u32_i64, i64)),
         ;
-    CheckedRem, checked_rem =>
+    CheckedRem, checked_rem, rem_failed =>
         // <= Bits8 (6 functions)
         (u8, i8 => (rem_u8_i8_i16, i16), (rem_u8_i8_i32, i32), (rem_u8_i8_i64, i64)),
         (i8, u8 => (rem_i8_u8_i16, i16), (rem_i8_u8_i32, i32), (rem_i8_u8_i64, i64)),
@@ -577,7 +592,10 @@ macro_rules! negate_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $(
             pub fn $fname(x: $t) -> Eval<$t> {
-                Eval::Direct(<$t as Neg>::neg(x))
+                match x.checked_neg() {
+                    Some(res) => Eval::Direct(res),
+                    None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(x).neg()))) }),
+                }
             }
         )*
     };
@@ -640,12 +658,9 @@ macro_rules! negate_unsigned_unsigned {
 macro_rules! abs_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $( pub fn $fname(x: $t) -> Eval<$t> {
-            let tmp = <$t as ::num_traits::Signed>::abs(&x);
-            // NOTE - Signed::abs(iX::MIN) == iX::MIN
-            if tmp == <$t>::MIN {
-                Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) })
-            } else {
-                Eval::Direct(tmp)
+            match x.checked_abs() {
+                Some(res) => Eval::Direct(res),
+                None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) }),
             }
         } )+
     };
@@ -662,18 +677,13 @@ macro_rules! abs_as_signed {
     };
 }
 
-/// Macro for taking absolute value via `Signed` impl on input followed by as-cast
+/// Macro for taking absolute value as the unsigned type of the input's width, followed by as-cast
 macro_rules! abs_signed_unsigned {
     ( $( $t:ty =>  $( ( $fname:ident, $t1:ty) ),+ $(,)? );+ $(;)? ) => {
         $(
             $(
                 pub fn $fname(x: $t) -> Eval<$t1> {
-                    let tmp = <$t as ::num_traits::Signed>::abs(&x);
-                    if tmp == <$t>::MIN {
-                        Eval::Direct(<$t>::MAX as $t1 + 1)
-                    } else {
-                        Eval::Direct(tmp as $t1)
-                    }
+                    Eval::Direct(x.unsigned_abs() as $t1)
                 }
             )+
         )+
-- 
2.43.0


From d18d197cc6b690be41538c1daa5d2f02ead139ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:17 +0000
Subject: [PATCH 28/59] fix: an array far longer than the data must be refused,
 not overflow

---
 smallsorts/src/binary/read.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..77192e6 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -537,7 +537,7 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let scope = self.read_scope(length.checked_mul(T::SIZE).ok_or(ParseError::BadEof)?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +555,7 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ParseError::BadEof)?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +592,7 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ParseError::BadEof)?)?;
         Ok(ReadArray {
             scope,
             length,
-- 
2.43.0


From 884fa22638f1ba055bcdea66892988a9676c1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:17 +0000
Subject: [PATCH 29/59] fix: items of a strided array must be read at the
 stride

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 77192e6..a27db0f 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -658,7 +658,7 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
             let size = T::size(self.args);
-            let offset = index * size;
+            let offset = index * self.stride;
             let scope = self.scope.offset_length(offset, size).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
-- 
2.43.0


From 4ed7d05f3d89e90fa2a27758fb62d2717124d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:17 +0000
Subject: [PATCH 30/59] fix: a partly consumed array iterator must report what
 remains

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index a27db0f..7fb98a9 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -814,7 +814,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = self.scope.data().len() / self.stride - self.index;
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From efd47718cb67657741f82deeb49fdeee7cb98772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:33 +0000
Subject: [PATCH 31/59] fix: a value no branch of a match accepts must be a
 parse error, not a crash

A Format::Match whose head fits none of its patterns panicked in both
interpreters and in generated decoders, so damaged input (deflate block
type 3, unknown PNG/ELF/MPEG-4/OpenType enumerators) ended the process.
---
 generated/gencode.rs        | 1998 +++++++++++++++++------------------
 src/codegen/mod.rs          |    7 +-
 src/codegen/rust_ast/mod.rs |    1 +
 src/decoder.rs              |    9 +-
 src/loc_decoder.rs          |    8 +-
 5 files changed, 1012 insertions(+), 1011 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 2a47297..6106c95 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10830,8 +10830,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10845,8 +10845,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10860,8 +10860,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10875,8 +10875,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10890,8 +10890,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10905,8 +10905,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10921,8 +10921,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14591018267292443527u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10936,8 +10936,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(4762692522317026931u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -11311,7 +11311,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(9630069758457681762u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11423,7 +11423,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12652804269632162478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
 inner
 }
 };
@@ -11439,7 +11439,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18134882366868794706u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
 inner
 }
 };
@@ -11460,7 +11460,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(14677505873656710393u64));
 }
 };
 let arg1 = {
@@ -11468,7 +11468,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(10102114574336663273u64));
 }
 };
 let arg2 = {
@@ -11476,7 +11476,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(4386762582485017400u64));
 }
 };
 let arg3 = {
@@ -11484,7 +11484,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(8893850231119365992u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11505,7 +11505,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4762692522317026931u64));
+return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11620,7 +11620,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9630069758457681762u64));
+return Err(ParseError::FalsifiedWhere(11052099086134529863u64));
 }
 };
 let glyph_data_format = {
@@ -11635,7 +11635,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
 inner
 }
 };
@@ -11656,7 +11656,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -11672,7 +11672,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11759,7 +11759,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11775,7 +11775,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -11791,7 +11791,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -11807,7 +11807,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -11825,7 +11825,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -12303,8 +12303,8 @@ accum
 opentype_loca_table_offsets::Offsets32(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8987822076696059625u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12407,7 +12407,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12423,7 +12423,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(980800817911480223u64));
+return Err(ParseError::FalsifiedWhere(1977899765720151190u64));
 }
 };
 let horiz_axis_offset = {
@@ -12471,7 +12471,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12517,7 +12517,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(7801539417877429212u64));
+return Err(ParseError::FailToken(12890902517277365935u64));
 },
 
 2u16 => {
@@ -12600,7 +12600,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12661,7 +12661,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -12720,7 +12720,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12736,7 +12736,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12752,7 +12752,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -12787,7 +12787,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -12803,7 +12803,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12819,7 +12819,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7343323033370781545u64));
+return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
 }
 };
 {
@@ -12834,7 +12834,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -12854,7 +12854,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -12889,7 +12889,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -12905,7 +12905,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -12992,7 +12992,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13008,7 +13008,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13063,7 +13063,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13079,7 +13079,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13095,7 +13095,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13111,7 +13111,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13154,7 +13154,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13178,7 +13178,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2818918064991511645u64));
+return Err(ParseError::FalsifiedWhere(2154669163482751322u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13198,7 +13198,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13233,7 +13233,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13249,7 +13249,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13302,7 +13302,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13318,7 +13318,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13405,7 +13405,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13421,7 +13421,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13437,7 +13437,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13453,7 +13453,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13471,7 +13471,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -13538,7 +13538,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
 inner
 }
 };
@@ -13579,7 +13579,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
 inner
 }
 };
@@ -13599,7 +13599,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16097120758067046920u64));
+return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
 }
 };
 let records = {
@@ -13635,7 +13635,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13655,7 +13655,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
+return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
 }
 };
 let ratio_range = {
@@ -13779,7 +13779,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14751251992141172493u64));
 inner
 }
 };
@@ -13795,7 +13795,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -13870,7 +13870,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10502127387712395480u64));
+return Err(ParseError::FalsifiedWhere(8997881400116719018u64));
 }
 };
 let data = match format {
@@ -14033,8 +14033,8 @@ opentype_stat_axis_value_table_data_Format4 { axis_count, flags, value_name_id,
 opentype_stat_axis_value_table_data::Format4(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13614619987783239962u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14060,7 +14060,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14092,7 +14092,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5322124757500927073u64));
+return Err(ParseError::FailToken(6949960292533894002u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14246,7 +14246,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1347174710810305478u64));
 inner
 }
 };
@@ -14283,7 +14283,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
 inner
 }
 };
@@ -14399,7 +14399,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 _input.close_peek_context()?;
@@ -14488,7 +14488,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13516986665125759073u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 let ix1 = {
@@ -14496,7 +14496,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 vec![ix0, ix1]
@@ -14566,7 +14566,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 _input.close_peek_context()?;
@@ -14579,7 +14579,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8997881400116719018u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 accum.push(next_elem)
@@ -14594,7 +14594,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14619,7 +14619,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6915530142412472120u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 _input.close_peek_context()?;
@@ -14632,7 +14632,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 };
 accum.push(next_elem)
@@ -14647,7 +14647,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(1278184758971178969u64));
 }
 };
 chars.clone()
@@ -14753,8 +14753,8 @@ let inner = (Decoder_deflate_dynamic_huffman(_input))?;
 deflate_block_data::dynamic_huffman(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -15890,7 +15890,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 }))
 },
@@ -16042,11 +16042,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(8390724546948265409u64));
+return Err(ParseError::FailToken(11250208753083412758u64));
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 })
 }
@@ -16123,8 +16123,8 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 (bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16177,7 +16177,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
 inner
 }
 };
@@ -16243,7 +16243,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
+return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
 }
 };
 let variation_regions = {
@@ -16416,7 +16416,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
 inner
 }
 };
@@ -16437,8 +16437,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8700288293163706751u64));
 }
 };
 let map_data = {
@@ -16500,7 +16500,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
+return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
 }
 };
 let tuple_variation_headers = {
@@ -16693,7 +16693,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 _input.close_peek_context()?;
@@ -16707,7 +16707,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(13846498452079501214u64));
 }
 };
 (0u16, [].to_vec())
@@ -16719,7 +16719,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16731,7 +16731,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16739,7 +16739,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 })
 }
@@ -16869,7 +16869,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
 inner
 }
 };
@@ -17018,7 +17018,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
 inner
 }
 };
@@ -17034,7 +17034,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
 inner
 }
 };
@@ -17090,7 +17090,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
 inner
 }
 };
@@ -17106,7 +17106,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17248,7 +17248,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
 }
 };
 let table_scope = table_view;
@@ -17264,7 +17264,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let extension_offset = {
@@ -17317,11 +17317,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(8700288293163706751u64));
+return Err(ParseError::FailToken(11323981950571132721u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(16771529512960957239u64));
+return Err(ParseError::FailToken(1179945139148562335u64));
 }
 })
 }
@@ -17345,7 +17345,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13846498452079501214u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17391,8 +17391,8 @@ opentype_layout_multiple_subst_subst_Format1 { sequence_count, sequence_offsets,
 opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17414,7 +17414,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let coverage = {
@@ -17463,7 +17463,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
 }
 };
 let coverage = {
@@ -17521,7 +17521,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17552,7 +17552,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17573,7 +17573,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let table_scope = table_view;
@@ -17704,7 +17704,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(8327471529801851430u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17952,7 +17952,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18194,7 +18194,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
 }
 };
 let seq_lookup_count = {
@@ -18432,7 +18432,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16529910322175208638u64));
 inner
 }
 };
@@ -18581,7 +18581,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
 }
 };
 let table_scope = table_view;
@@ -18597,7 +18597,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
 }
 };
 let extension_offset = {
@@ -18655,11 +18655,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(1369437808023015077u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 }
 })
 }
@@ -18683,7 +18683,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18708,7 +18708,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(4770836931378141069u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18729,7 +18729,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 let table_scope = table_view;
@@ -18771,7 +18771,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 }
 };
 let table_scope = table_view;
@@ -18830,7 +18830,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
 }
 };
 let mark_coverage = {
@@ -18887,7 +18887,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 }
 };
 let table_scope = table_view;
@@ -19045,7 +19045,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(1386817607731947864u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19193,7 +19193,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8327471529801851430u64));
+return Err(ParseError::ExcludedBranch(4795509455376621436u64));
 }
 };
 let arg1 = {
@@ -19201,7 +19201,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10310785543736156275u64));
+return Err(ParseError::ExcludedBranch(3923207427992258326u64));
 }
 };
 (arg0, arg1)
@@ -20139,7 +20139,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -20230,7 +20230,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(15995337135637623051u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20479,7 +20479,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20543,7 +20543,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(10243418979491025991u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21192,7 +21192,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(6726475111737435495u64));
 }
 };
 let max_twilight_points = {
@@ -21235,7 +21235,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21330,8 +21330,8 @@ let inner = (Decoder_opentype_cmap_subtable_format14(_input, table_view))?;
 opentype_cmap_subtable_data::Format14(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14926982082392674388u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21354,7 +21354,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21379,7 +21379,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21422,7 +21422,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21437,7 +21437,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21458,7 +21458,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -21474,7 +21474,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
 }
 };
 let language = {
@@ -21595,7 +21595,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21620,7 +21620,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21674,7 +21674,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21755,7 +21755,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21806,7 +21806,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21822,7 +21822,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21847,7 +21847,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21863,7 +21863,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21918,7 +21918,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21934,7 +21934,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21959,7 +21959,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21975,7 +21975,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -22029,7 +22029,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -22045,7 +22045,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -22070,7 +22070,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -22086,7 +22086,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -22133,7 +22133,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22149,7 +22149,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22174,7 +22174,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22190,7 +22190,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22237,7 +22237,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22262,7 +22262,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22429,7 +22429,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
+return Err(ParseError::FalsifiedWhere(4649034608147552416u64));
 })
 }
 
@@ -22446,8 +22446,8 @@ let inner = (Decoder251(_input, is_be))?;
 elf_types_elf_full::Full64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 })
 }
@@ -22465,8 +22465,8 @@ let inner = (Decoder250(_input, is_be))?;
 elf_types_elf_addr::Addr64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 })
 }
@@ -22484,8 +22484,8 @@ let inner = (Decoder248(_input, is_be))?;
 elf_types_elf_off::Off64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 })
 }
@@ -22615,7 +22615,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18440348483137307888u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 let arg1 = {
@@ -22623,7 +22623,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11309019127259385425u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 let arg2 = {
@@ -22631,7 +22631,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 let arg3 = {
@@ -22639,7 +22639,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22671,7 +22671,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 };
 accum.push(next_elem)
@@ -22694,7 +22694,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
+return Err(ParseError::FalsifiedWhere(7230273548678969972u64));
 })
 }
 
@@ -22713,7 +22713,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
+return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
 })
 }
 
@@ -22743,7 +22743,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
 })
 }
 
@@ -22757,7 +22757,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
 })
 }
 
@@ -22771,7 +22771,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
 })
 }
 
@@ -22832,7 +22832,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9277543013594125416u64));
+return Err(ParseError::ExcludedBranch(15510952803379905659u64));
 }
 };
 _input.close_peek_context()?;
@@ -22845,7 +22845,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5955168674639093440u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
 accum.push(next_elem)
@@ -22878,7 +22878,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 accum.push(next_elem)
@@ -22913,7 +22913,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
 _input.close_peek_context()?;
@@ -22926,7 +22926,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
 accum.push(next_elem)
@@ -22959,7 +22959,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 accum.push(next_elem)
@@ -22994,7 +22994,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 _input.close_peek_context()?;
@@ -23007,7 +23007,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 accum.push(next_elem)
@@ -23040,7 +23040,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 accum.push(next_elem)
@@ -23063,10 +23063,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8094248233631264621u64)
+try_sub!(bit as u8, 48u8, 8179432974518885725u64)
 };
 let _o9 = {
 let bit = {
@@ -23074,10 +23074,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7230273548678969972u64)
+try_sub!(bit as u8, 48u8, 16909208071962620789u64)
 };
 let _o8 = {
 let bit = {
@@ -23085,10 +23085,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(7933266403838225878u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9038350950373664822u64)
+try_sub!(bit as u8, 48u8, 9041056097467752267u64)
 };
 let _o7 = {
 let bit = {
@@ -23096,10 +23096,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(5025197102194587315u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14681668243282477517u64)
+try_sub!(bit as u8, 48u8, 15252450768049745444u64)
 };
 let _o6 = {
 let bit = {
@@ -23107,10 +23107,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12217686503432178884u64)
+try_sub!(bit as u8, 48u8, 2988545765690796708u64)
 };
 let _o5 = {
 let bit = {
@@ -23118,10 +23118,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9815657591077818003u64)
+try_sub!(bit as u8, 48u8, 3566920116549027235u64)
 };
 let _o4 = {
 let bit = {
@@ -23129,10 +23129,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14485842416732585139u64)
+try_sub!(bit as u8, 48u8, 16671136947067655757u64)
 };
 let _o3 = {
 let bit = {
@@ -23140,10 +23140,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13780055874544357936u64)
+try_sub!(bit as u8, 48u8, 441240706992005484u64)
 };
 let _o2 = {
 let bit = {
@@ -23151,10 +23151,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 11079395374415646537u64)
 };
 let _o1 = {
 let bit = {
@@ -23162,10 +23162,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 8812292064350598352u64)
 };
 let _o0 = {
 let bit = {
@@ -23173,10 +23173,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 4316175446384649956u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23204,7 +23204,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 _input.close_peek_context()?;
@@ -23217,7 +23217,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23250,7 +23250,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23285,7 +23285,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 _input.close_peek_context()?;
@@ -23298,7 +23298,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem)
@@ -23331,7 +23331,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23360,7 +23360,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 let arg1 = {
@@ -23368,7 +23368,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 let arg2 = {
@@ -23376,7 +23376,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg3 = {
@@ -23384,7 +23384,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 let arg4 = {
@@ -23392,7 +23392,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let arg5 = {
@@ -23400,7 +23400,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23411,7 +23411,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg1 = {
@@ -23419,7 +23419,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 (arg0, arg1)
@@ -23458,7 +23458,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 _input.close_peek_context()?;
@@ -23471,7 +23471,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 accum.push(next_elem)
@@ -23504,7 +23504,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 accum.push(next_elem)
@@ -23539,7 +23539,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 _input.close_peek_context()?;
@@ -23552,7 +23552,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 accum.push(next_elem)
@@ -23585,7 +23585,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 accum.push(next_elem)
@@ -23615,7 +23615,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23646,7 +23646,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 _input.close_peek_context()?;
@@ -23665,7 +23665,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 accum.push(next_elem)
@@ -23698,7 +23698,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23717,7 +23717,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 })
 }
 
@@ -23739,7 +23739,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 _input.close_peek_context()?;
@@ -23752,7 +23752,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 accum.push(next_elem)
@@ -23784,7 +23784,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 accum.push(next_elem)
@@ -23815,7 +23815,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 _input.close_peek_context()?;
@@ -23828,7 +23828,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem)
@@ -23866,7 +23866,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 accum.push(next_elem)
@@ -23895,7 +23895,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 _input.close_peek_context()?;
@@ -23909,7 +23909,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg1 = {
@@ -23917,7 +23917,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23929,7 +23929,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 let arg1 = {
@@ -23937,14 +23937,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 })
 }
@@ -24153,7 +24153,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 })
 } else {
 None
@@ -24175,7 +24175,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
+return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24207,7 +24207,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
+return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24339,7 +24339,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24373,7 +24373,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
 let flags = {
@@ -24416,7 +24416,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24434,7 +24434,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 let arg1 = {
@@ -24442,7 +24442,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 let arg2 = {
@@ -24450,7 +24450,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 let arg3 = {
@@ -24458,7 +24458,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24471,7 +24471,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg1 = {
@@ -24479,7 +24479,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let arg2 = {
@@ -24487,7 +24487,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let arg3 = {
@@ -24495,7 +24495,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24537,7 +24537,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg1 = {
@@ -24545,7 +24545,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 let arg2 = {
@@ -24553,7 +24553,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let arg3 = {
@@ -24561,7 +24561,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24585,7 +24585,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg1 = {
@@ -24593,7 +24593,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let arg2 = {
@@ -24601,7 +24601,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let arg3 = {
@@ -24609,7 +24609,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24638,7 +24638,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 accum.push(next_elem)
@@ -24742,8 +24742,8 @@ accum
 png_trns::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 })
 }
@@ -24803,7 +24803,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 val.clone()
@@ -24813,7 +24813,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24871,8 +24871,8 @@ png_sbit_color_type_6 { sig_red_bits, sig_green_bits, sig_blue_bits, sig_alpha_b
 png_sbit::color_type_6(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 })
 }
@@ -24888,7 +24888,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(4514882359072253410u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24903,7 +24903,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 val.clone()
@@ -24913,7 +24913,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 let compression_method = {
@@ -24921,7 +24921,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 let language_tag = {
@@ -24941,7 +24941,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 _input.close_peek_context()?;
@@ -24954,7 +24954,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 accum.push(next_elem)
@@ -24969,7 +24969,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 chars.clone()
@@ -24981,7 +24981,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 val.clone()
@@ -25068,7 +25068,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 val.clone()
@@ -25106,7 +25106,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 val.clone()
@@ -25116,7 +25116,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 let compressed_text = {
@@ -25199,8 +25199,8 @@ png_trns_color_type_3 { palette_index }
 png_bkgd::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 })
 }
@@ -25257,7 +25257,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 val.clone()
@@ -25267,7 +25267,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 let palette = match sample_depth {
@@ -25353,8 +25353,8 @@ accum
 png_splt_palette::sample_depth_u16(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25859,475 +25859,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(1292030895245088137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(8527564631842216417u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(10545338643554355463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(3529321240709143928u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(9481712747994656857u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(11863749907612277673u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(8408007422644693463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(2137824516769298342u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(17504519908837839248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(5377488665469248769u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(10179224889113195865u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(2526895115167988738u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(7617559532652678498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(4051432836859471288u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(14741532803131558705u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(10276185770177327434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(16586067667342674799u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(2497564037439806374u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(8400230153663738380u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+return Err(ParseError::ExcludedBranch(3348696109325747597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+return Err(ParseError::ExcludedBranch(3775958429611079664u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+return Err(ParseError::ExcludedBranch(15402873290357121767u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13513276483415770047u64));
+return Err(ParseError::ExcludedBranch(7699494290217942468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1292030895245088137u64));
+return Err(ParseError::ExcludedBranch(15920470819585350103u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8527564631842216417u64));
+return Err(ParseError::ExcludedBranch(2212229856396822503u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10545338643554355463u64));
+return Err(ParseError::ExcludedBranch(13487040053473546512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3529321240709143928u64));
+return Err(ParseError::ExcludedBranch(7142800526810245879u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9481712747994656857u64));
+return Err(ParseError::ExcludedBranch(15228292911834498078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11863749907612277673u64));
+return Err(ParseError::ExcludedBranch(14228769055716402588u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8408007422644693463u64));
+return Err(ParseError::ExcludedBranch(2096340590066926443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2137824516769298342u64));
+return Err(ParseError::ExcludedBranch(6262990113977164585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17504519908837839248u64));
+return Err(ParseError::ExcludedBranch(16057321717383774211u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5377488665469248769u64));
+return Err(ParseError::ExcludedBranch(5291563035461819971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10179224889113195865u64));
+return Err(ParseError::ExcludedBranch(14334546370445091615u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2526895115167988738u64));
+return Err(ParseError::ExcludedBranch(18123524617814052121u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7617559532652678498u64));
+return Err(ParseError::ExcludedBranch(3966750415843992376u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4051432836859471288u64));
+return Err(ParseError::ExcludedBranch(3512844604428973098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14741532803131558705u64));
+return Err(ParseError::ExcludedBranch(14732383712267459599u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10276185770177327434u64));
+return Err(ParseError::ExcludedBranch(13357689525249598011u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16586067667342674799u64));
+return Err(ParseError::ExcludedBranch(16153196263894316997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2497564037439806374u64));
+return Err(ParseError::ExcludedBranch(11930340298772268405u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8400230153663738380u64));
+return Err(ParseError::ExcludedBranch(8442068294613883251u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3348696109325747597u64));
+return Err(ParseError::ExcludedBranch(6850311165997710199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3775958429611079664u64));
+return Err(ParseError::ExcludedBranch(2310756498479603065u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15402873290357121767u64));
+return Err(ParseError::ExcludedBranch(5816243344835903905u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7699494290217942468u64));
+return Err(ParseError::ExcludedBranch(16915030153566842158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920470819585350103u64));
+return Err(ParseError::ExcludedBranch(5877293982949196624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2212229856396822503u64));
+return Err(ParseError::ExcludedBranch(2440323998191641952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13487040053473546512u64));
+return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7142800526810245879u64));
+return Err(ParseError::ExcludedBranch(11458871772722170518u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15228292911834498078u64));
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14228769055716402588u64));
+return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2096340590066926443u64));
+return Err(ParseError::ExcludedBranch(4255813677013328811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6262990113977164585u64));
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16057321717383774211u64));
+return Err(ParseError::ExcludedBranch(15409834313606096443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5291563035461819971u64));
+return Err(ParseError::ExcludedBranch(7572218778908935167u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14334546370445091615u64));
+return Err(ParseError::ExcludedBranch(12520942526725743695u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18123524617814052121u64));
+return Err(ParseError::ExcludedBranch(5905249956584638130u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3966750415843992376u64));
+return Err(ParseError::ExcludedBranch(8609603324479018835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3512844604428973098u64));
+return Err(ParseError::ExcludedBranch(8973115486793444912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14732383712267459599u64));
+return Err(ParseError::ExcludedBranch(2872401692234135189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13357689525249598011u64));
+return Err(ParseError::ExcludedBranch(3556125603266802472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16153196263894316997u64));
+return Err(ParseError::ExcludedBranch(16173438081116718978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11930340298772268405u64));
+return Err(ParseError::ExcludedBranch(3532284049956758497u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8442068294613883251u64));
+return Err(ParseError::ExcludedBranch(1214015012285792661u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6850311165997710199u64));
+return Err(ParseError::ExcludedBranch(18287039256282529512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2310756498479603065u64));
+return Err(ParseError::ExcludedBranch(6040541316788286267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5816243344835903905u64));
+return Err(ParseError::ExcludedBranch(6926344996361682930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16915030153566842158u64));
+return Err(ParseError::ExcludedBranch(1335666833550050804u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5877293982949196624u64));
+return Err(ParseError::ExcludedBranch(12949211704949756849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2440323998191641952u64));
+return Err(ParseError::ExcludedBranch(4317621489266312319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
+return Err(ParseError::ExcludedBranch(868434092978367357u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
+return Err(ParseError::ExcludedBranch(496554245154466536u64));
 }
 };
 _input.close_peek_context()?;
@@ -26342,7 +26342,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
 }
 };
 accum.push(next_elem)
@@ -26837,475 +26837,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15409834313606096443u64));
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7572218778908935167u64));
+return Err(ParseError::ExcludedBranch(13980028702310773940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12520942526725743695u64));
+return Err(ParseError::ExcludedBranch(4312000683241916062u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5905249956584638130u64));
+return Err(ParseError::ExcludedBranch(3334424754000117797u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8609603324479018835u64));
+return Err(ParseError::ExcludedBranch(527013363415661133u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8973115486793444912u64));
+return Err(ParseError::ExcludedBranch(4717292700030555590u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2872401692234135189u64));
+return Err(ParseError::ExcludedBranch(653172816195928449u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3556125603266802472u64));
+return Err(ParseError::ExcludedBranch(581976537271693173u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173438081116718978u64));
+return Err(ParseError::ExcludedBranch(10727170711560529872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3532284049956758497u64));
+return Err(ParseError::ExcludedBranch(17095884813960222885u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1214015012285792661u64));
+return Err(ParseError::ExcludedBranch(974442582679666596u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18287039256282529512u64));
+return Err(ParseError::ExcludedBranch(4054889295781446756u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6040541316788286267u64));
+return Err(ParseError::ExcludedBranch(14775695284177607002u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6926344996361682930u64));
+return Err(ParseError::ExcludedBranch(6914153644311469309u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1335666833550050804u64));
+return Err(ParseError::ExcludedBranch(11188141958235814565u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12949211704949756849u64));
+return Err(ParseError::ExcludedBranch(15180040648844909945u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4317621489266312319u64));
+return Err(ParseError::ExcludedBranch(18312372211249290289u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(868434092978367357u64));
+return Err(ParseError::ExcludedBranch(6298802191889347847u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
+return Err(ParseError::ExcludedBranch(11017185023542530489u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+return Err(ParseError::ExcludedBranch(15395924218065814216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+return Err(ParseError::ExcludedBranch(14060832500024730160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+return Err(ParseError::ExcludedBranch(3344470983013526080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+return Err(ParseError::ExcludedBranch(10251322642913008199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+return Err(ParseError::ExcludedBranch(10455173543833790502u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
+return Err(ParseError::ExcludedBranch(1789963736344690987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4312000683241916062u64));
+return Err(ParseError::ExcludedBranch(15079752956117840734u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3334424754000117797u64));
+return Err(ParseError::ExcludedBranch(7980438082889912554u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(527013363415661133u64));
+return Err(ParseError::ExcludedBranch(6840264564700035644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4717292700030555590u64));
+return Err(ParseError::ExcludedBranch(2232617280930402416u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653172816195928449u64));
+return Err(ParseError::ExcludedBranch(10367781439645737926u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(581976537271693173u64));
+return Err(ParseError::ExcludedBranch(6016311883578211466u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10727170711560529872u64));
+return Err(ParseError::ExcludedBranch(14984769167642974435u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17095884813960222885u64));
+return Err(ParseError::ExcludedBranch(11733915986279978987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(974442582679666596u64));
+return Err(ParseError::ExcludedBranch(12796096677294114859u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4054889295781446756u64));
+return Err(ParseError::ExcludedBranch(4290849149416714172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14775695284177607002u64));
+return Err(ParseError::ExcludedBranch(2598935692633451852u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6914153644311469309u64));
+return Err(ParseError::ExcludedBranch(8938360652744148620u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11188141958235814565u64));
+return Err(ParseError::ExcludedBranch(3379987508464424555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15180040648844909945u64));
+return Err(ParseError::ExcludedBranch(11173052675913205247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18312372211249290289u64));
+return Err(ParseError::ExcludedBranch(1780493074893517013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6298802191889347847u64));
+return Err(ParseError::ExcludedBranch(5013701440573848944u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11017185023542530489u64));
+return Err(ParseError::ExcludedBranch(15508559755986719975u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15395924218065814216u64));
+return Err(ParseError::ExcludedBranch(14782609537615230269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14060832500024730160u64));
+return Err(ParseError::ExcludedBranch(17984802637964449391u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344470983013526080u64));
+return Err(ParseError::ExcludedBranch(4337320827937013231u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10251322642913008199u64));
+return Err(ParseError::ExcludedBranch(9730514595131843432u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10455173543833790502u64));
+return Err(ParseError::ExcludedBranch(11851311358763079517u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1789963736344690987u64));
+return Err(ParseError::ExcludedBranch(4195586632355556000u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15079752956117840734u64));
+return Err(ParseError::ExcludedBranch(3595083506735372973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7980438082889912554u64));
+return Err(ParseError::ExcludedBranch(7160308966995483862u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6840264564700035644u64));
+return Err(ParseError::ExcludedBranch(10995965655495216468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2232617280930402416u64));
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10367781439645737926u64));
+return Err(ParseError::ExcludedBranch(6740511944232229269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6016311883578211466u64));
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14984769167642974435u64));
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11733915986279978987u64));
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12796096677294114859u64));
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4290849149416714172u64));
+return Err(ParseError::ExcludedBranch(10699246393255895644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2598935692633451852u64));
+return Err(ParseError::ExcludedBranch(16725113430369695556u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8938360652744148620u64));
+return Err(ParseError::ExcludedBranch(10581544802310072854u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3379987508464424555u64));
+return Err(ParseError::ExcludedBranch(2930236810929305906u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11173052675913205247u64));
+return Err(ParseError::ExcludedBranch(9788088961065186348u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1780493074893517013u64));
+return Err(ParseError::ExcludedBranch(13475201244121026739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5013701440573848944u64));
+return Err(ParseError::ExcludedBranch(10514680212862927148u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15508559755986719975u64));
+return Err(ParseError::ExcludedBranch(1404288588910574651u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14782609537615230269u64));
+return Err(ParseError::ExcludedBranch(9722140062746187322u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17984802637964449391u64));
+return Err(ParseError::ExcludedBranch(14672290401516300248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4337320827937013231u64));
+return Err(ParseError::ExcludedBranch(1570732024996461745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9730514595131843432u64));
+return Err(ParseError::ExcludedBranch(3970524133912495743u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11851311358763079517u64));
+return Err(ParseError::ExcludedBranch(10022572355386706896u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4195586632355556000u64));
+return Err(ParseError::ExcludedBranch(7175325427369635964u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3595083506735372973u64));
+return Err(ParseError::ExcludedBranch(10941190781838111798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7160308966995483862u64));
+return Err(ParseError::ExcludedBranch(8533828000951561331u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10995965655495216468u64));
+return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
+return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6740511944232229269u64));
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 }
 };
 _input.close_peek_context()?;
@@ -27320,7 +27320,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
 }
 };
 accum.push(next_elem)
@@ -27346,7 +27346,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2734069901426030304u64));
+return Err(ParseError::FalsifiedWhere(9286045119570450224u64));
 }
 };
 let flags = {
@@ -27860,475 +27860,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10699246393255895644u64));
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16725113430369695556u64));
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10581544802310072854u64));
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2930236810929305906u64));
+return Err(ParseError::ExcludedBranch(11728165168471348185u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9788088961065186348u64));
+return Err(ParseError::ExcludedBranch(10495009576779598530u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13475201244121026739u64));
+return Err(ParseError::ExcludedBranch(7128967683436470476u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10514680212862927148u64));
+return Err(ParseError::ExcludedBranch(3036714361878569528u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1404288588910574651u64));
+return Err(ParseError::ExcludedBranch(17797183748027644744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9722140062746187322u64));
+return Err(ParseError::ExcludedBranch(4766620025042958433u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14672290401516300248u64));
+return Err(ParseError::ExcludedBranch(3832366084378679427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1570732024996461745u64));
+return Err(ParseError::ExcludedBranch(12230053902523648559u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3970524133912495743u64));
+return Err(ParseError::ExcludedBranch(6309917041149428265u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10022572355386706896u64));
+return Err(ParseError::ExcludedBranch(14708340496221370872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7175325427369635964u64));
+return Err(ParseError::ExcludedBranch(8149951888585961823u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10941190781838111798u64));
+return Err(ParseError::ExcludedBranch(9665308631980535174u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8533828000951561331u64));
+return Err(ParseError::ExcludedBranch(17114848294724579474u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7620563226324297760u64));
+return Err(ParseError::ExcludedBranch(6471433373632717886u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+return Err(ParseError::ExcludedBranch(11488186652992817125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+return Err(ParseError::ExcludedBranch(16428598146864409139u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+return Err(ParseError::ExcludedBranch(11934620222090497034u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+return Err(ParseError::ExcludedBranch(7597388605883543966u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+return Err(ParseError::ExcludedBranch(1942606498606899849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+return Err(ParseError::ExcludedBranch(9288520242296510642u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+return Err(ParseError::ExcludedBranch(12753818979092594971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+return Err(ParseError::ExcludedBranch(9662462399070735352u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+return Err(ParseError::ExcludedBranch(8414850703985147087u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11728165168471348185u64));
+return Err(ParseError::ExcludedBranch(14428558544277089677u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10495009576779598530u64));
+return Err(ParseError::ExcludedBranch(17505260505493155057u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7128967683436470476u64));
+return Err(ParseError::ExcludedBranch(4244096627290639074u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3036714361878569528u64));
+return Err(ParseError::ExcludedBranch(16278372111013231116u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17797183748027644744u64));
+return Err(ParseError::ExcludedBranch(4797145928961714098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4766620025042958433u64));
+return Err(ParseError::ExcludedBranch(11396441833338683368u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3832366084378679427u64));
+return Err(ParseError::ExcludedBranch(18000244536401340529u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12230053902523648559u64));
+return Err(ParseError::ExcludedBranch(17499296848696657524u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6309917041149428265u64));
+return Err(ParseError::ExcludedBranch(17871409524597489995u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14708340496221370872u64));
+return Err(ParseError::ExcludedBranch(18319329181163975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8149951888585961823u64));
+return Err(ParseError::ExcludedBranch(9728697411637566730u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665308631980535174u64));
+return Err(ParseError::ExcludedBranch(9691647707184281179u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17114848294724579474u64));
+return Err(ParseError::ExcludedBranch(7972156773864461481u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6471433373632717886u64));
+return Err(ParseError::ExcludedBranch(11074874806330017418u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11488186652992817125u64));
+return Err(ParseError::ExcludedBranch(12662813720965160010u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16428598146864409139u64));
+return Err(ParseError::ExcludedBranch(3243138897542356980u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11934620222090497034u64));
+return Err(ParseError::ExcludedBranch(15920917552321559809u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7597388605883543966u64));
+return Err(ParseError::ExcludedBranch(835240278964504247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1942606498606899849u64));
+return Err(ParseError::ExcludedBranch(7150174851274887183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9288520242296510642u64));
+return Err(ParseError::ExcludedBranch(11306355108769900243u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12753818979092594971u64));
+return Err(ParseError::ExcludedBranch(9864490923722431849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9662462399070735352u64));
+return Err(ParseError::ExcludedBranch(1995664400520545068u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8414850703985147087u64));
+return Err(ParseError::ExcludedBranch(14904826071154862403u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14428558544277089677u64));
+return Err(ParseError::ExcludedBranch(9819888267966403254u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17505260505493155057u64));
+return Err(ParseError::ExcludedBranch(9848248130448711783u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4244096627290639074u64));
+return Err(ParseError::ExcludedBranch(13072404838946064765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16278372111013231116u64));
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4797145928961714098u64));
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11396441833338683368u64));
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18000244536401340529u64));
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17499296848696657524u64));
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17871409524597489995u64));
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18319329181163975393u64));
+return Err(ParseError::ExcludedBranch(14474361861190022573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9728697411637566730u64));
+return Err(ParseError::ExcludedBranch(8440332211549640930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9691647707184281179u64));
+return Err(ParseError::ExcludedBranch(13045651918551022996u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7972156773864461481u64));
+return Err(ParseError::ExcludedBranch(12507789284617859731u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074874806330017418u64));
+return Err(ParseError::ExcludedBranch(4636203914394120912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12662813720965160010u64));
+return Err(ParseError::ExcludedBranch(12770885481695079655u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3243138897542356980u64));
+return Err(ParseError::ExcludedBranch(5713736954960046494u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920917552321559809u64));
+return Err(ParseError::ExcludedBranch(5286459060741837465u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(835240278964504247u64));
+return Err(ParseError::ExcludedBranch(10857757036842967573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7150174851274887183u64));
+return Err(ParseError::ExcludedBranch(8347358143797316202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11306355108769900243u64));
+return Err(ParseError::ExcludedBranch(9289217078927880343u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9864490923722431849u64));
+return Err(ParseError::ExcludedBranch(7619374930571283120u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1995664400520545068u64));
+return Err(ParseError::ExcludedBranch(5502272810018950495u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14904826071154862403u64));
+return Err(ParseError::ExcludedBranch(9422091606538556682u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9819888267966403254u64));
+return Err(ParseError::ExcludedBranch(1986031727359985319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9848248130448711783u64));
+return Err(ParseError::ExcludedBranch(2609726213773413101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13072404838946064765u64));
+return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
+return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
 };
 _input.close_peek_context()?;
@@ -28343,7 +28343,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
 }
 };
 accum.push(next_elem)
@@ -28838,475 +28838,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14474361861190022573u64));
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8440332211549640930u64));
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13045651918551022996u64));
+return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12507789284617859731u64));
+return Err(ParseError::ExcludedBranch(5396814765406749711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4636203914394120912u64));
+return Err(ParseError::ExcludedBranch(12786091976415550822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12770885481695079655u64));
+return Err(ParseError::ExcludedBranch(15224635086995724042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5713736954960046494u64));
+return Err(ParseError::ExcludedBranch(12911570055982528377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5286459060741837465u64));
+return Err(ParseError::ExcludedBranch(17578303967306014514u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10857757036842967573u64));
+return Err(ParseError::ExcludedBranch(7236895128762201498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8347358143797316202u64));
+return Err(ParseError::ExcludedBranch(10396295304006156759u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9289217078927880343u64));
+return Err(ParseError::ExcludedBranch(14603388329461445014u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7619374930571283120u64));
+return Err(ParseError::ExcludedBranch(15092052115449480204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5502272810018950495u64));
+return Err(ParseError::ExcludedBranch(5644646321622228807u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422091606538556682u64));
+return Err(ParseError::ExcludedBranch(12876869868341544086u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1986031727359985319u64));
+return Err(ParseError::ExcludedBranch(6757475294452472580u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2609726213773413101u64));
+return Err(ParseError::ExcludedBranch(5316076842439816359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4688564412461098550u64));
+return Err(ParseError::ExcludedBranch(13241229060561103069u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+return Err(ParseError::ExcludedBranch(8896324603808149952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+return Err(ParseError::ExcludedBranch(8480214967847684808u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+return Err(ParseError::ExcludedBranch(4089331332020821320u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+return Err(ParseError::ExcludedBranch(7660172056721883940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+return Err(ParseError::ExcludedBranch(8118664158941399609u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+return Err(ParseError::ExcludedBranch(11259402406166723834u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+return Err(ParseError::ExcludedBranch(2562653558681619679u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
+return Err(ParseError::ExcludedBranch(9066549901844041194u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5252251088830583126u64));
+return Err(ParseError::ExcludedBranch(17788403991563985894u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5396814765406749711u64));
+return Err(ParseError::ExcludedBranch(14014946361797352706u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12786091976415550822u64));
+return Err(ParseError::ExcludedBranch(17148278567107839372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15224635086995724042u64));
+return Err(ParseError::ExcludedBranch(10059971034460660304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12911570055982528377u64));
+return Err(ParseError::ExcludedBranch(11566301548302897286u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17578303967306014514u64));
+return Err(ParseError::ExcludedBranch(4726882489015010540u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7236895128762201498u64));
+return Err(ParseError::ExcludedBranch(16731067715008063623u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10396295304006156759u64));
+return Err(ParseError::ExcludedBranch(10050470520268747158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14603388329461445014u64));
+return Err(ParseError::ExcludedBranch(7028862034699171644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15092052115449480204u64));
+return Err(ParseError::ExcludedBranch(6768457941542394460u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5644646321622228807u64));
+return Err(ParseError::ExcludedBranch(3336832804021932765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12876869868341544086u64));
+return Err(ParseError::ExcludedBranch(14287222125204946454u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6757475294452472580u64));
+return Err(ParseError::ExcludedBranch(14784334396256787566u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5316076842439816359u64));
+return Err(ParseError::ExcludedBranch(17975519714191498979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13241229060561103069u64));
+return Err(ParseError::ExcludedBranch(15547793456796641064u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8896324603808149952u64));
+return Err(ParseError::ExcludedBranch(2708015872450907711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8480214967847684808u64));
+return Err(ParseError::ExcludedBranch(17628659998315744600u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4089331332020821320u64));
+return Err(ParseError::ExcludedBranch(7574719322668410505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7660172056721883940u64));
+return Err(ParseError::ExcludedBranch(6886530205512451724u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8118664158941399609u64));
+return Err(ParseError::ExcludedBranch(4782096577080450146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11259402406166723834u64));
+return Err(ParseError::ExcludedBranch(14577481400621526493u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2562653558681619679u64));
+return Err(ParseError::ExcludedBranch(14148913971033431093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066549901844041194u64));
+return Err(ParseError::ExcludedBranch(17190949120592669315u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17788403991563985894u64));
+return Err(ParseError::ExcludedBranch(8699787504309122591u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14014946361797352706u64));
+return Err(ParseError::ExcludedBranch(78099073500381561u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17148278567107839372u64));
+return Err(ParseError::ExcludedBranch(5364461768558038471u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10059971034460660304u64));
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11566301548302897286u64));
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4726882489015010540u64));
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16731067715008063623u64));
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10050470520268747158u64));
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7028862034699171644u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6768457941542394460u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3336832804021932765u64));
+return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14287222125204946454u64));
+return Err(ParseError::ExcludedBranch(14908888453225293887u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14784334396256787566u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17975519714191498979u64));
+return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15547793456796641064u64));
+return Err(ParseError::ExcludedBranch(7083101893872508858u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2708015872450907711u64));
+return Err(ParseError::ExcludedBranch(15979415359593570628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17628659998315744600u64));
+return Err(ParseError::ExcludedBranch(17922878356929717082u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7574719322668410505u64));
+return Err(ParseError::ExcludedBranch(15321253101048235163u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6886530205512451724u64));
+return Err(ParseError::ExcludedBranch(14285291594842403582u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4782096577080450146u64));
+return Err(ParseError::ExcludedBranch(7161350271661739096u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14577481400621526493u64));
+return Err(ParseError::ExcludedBranch(14445026714989735755u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14148913971033431093u64));
+return Err(ParseError::ExcludedBranch(7573348369521592997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17190949120592669315u64));
+return Err(ParseError::ExcludedBranch(2912602219218223367u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8699787504309122591u64));
+return Err(ParseError::ExcludedBranch(15885886181646629118u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(78099073500381561u64));
+return Err(ParseError::ExcludedBranch(13594649006224468849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5364461768558038471u64));
+return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
+return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
 };
 _input.close_peek_context()?;
@@ -29321,7 +29321,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
 }
 };
 accum.push(next_elem)
@@ -29380,7 +29380,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
 }
 };
 _input.close_peek_context()?;
@@ -29413,7 +29413,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14275129881911283147u64));
+return Err(ParseError::FalsifiedWhere(12268471799124361536u64));
 }
 };
 let flags = {
@@ -29487,7 +29487,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
 }
 };
 _input.close_peek_context()?;
@@ -29558,7 +29558,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
 }
 };
 _input.close_peek_context()?;
@@ -30060,475 +30060,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1456571545446476568u64));
+return Err(ParseError::ExcludedBranch(3933597635930613605u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908888453225293887u64));
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14063858022942822585u64));
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7083101893872508858u64));
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15979415359593570628u64));
+return Err(ParseError::ExcludedBranch(552953513858366451u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17922878356929717082u64));
+return Err(ParseError::ExcludedBranch(17332407069754301555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15321253101048235163u64));
+return Err(ParseError::ExcludedBranch(14279133095670415871u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14285291594842403582u64));
+return Err(ParseError::ExcludedBranch(7347749870002275487u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7161350271661739096u64));
+return Err(ParseError::ExcludedBranch(10748847049349746078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14445026714989735755u64));
+return Err(ParseError::ExcludedBranch(14220958138979104104u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7573348369521592997u64));
+return Err(ParseError::ExcludedBranch(17741760072369420240u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2912602219218223367u64));
+return Err(ParseError::ExcludedBranch(12223407337737822059u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15885886181646629118u64));
+return Err(ParseError::ExcludedBranch(6072942808717419822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13594649006224468849u64));
+return Err(ParseError::ExcludedBranch(15560056883377919848u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14349391981174483355u64));
+return Err(ParseError::ExcludedBranch(7977419944699061624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+return Err(ParseError::ExcludedBranch(8323252642575612937u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+return Err(ParseError::ExcludedBranch(11678443062630698028u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+return Err(ParseError::ExcludedBranch(14832405617500840744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+return Err(ParseError::ExcludedBranch(1398536204687975789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+return Err(ParseError::ExcludedBranch(7336714497745271452u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+return Err(ParseError::ExcludedBranch(4152914559762097168u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+return Err(ParseError::ExcludedBranch(1152534299541961510u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
+return Err(ParseError::ExcludedBranch(5095757730543354711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+return Err(ParseError::ExcludedBranch(4668055697655854201u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+return Err(ParseError::ExcludedBranch(6515957116553005671u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
+return Err(ParseError::ExcludedBranch(2017059186547121525u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
+return Err(ParseError::ExcludedBranch(11789784461021426583u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(552953513858366451u64));
+return Err(ParseError::ExcludedBranch(16022216421479351095u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17332407069754301555u64));
+return Err(ParseError::ExcludedBranch(15337804701822118436u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14279133095670415871u64));
+return Err(ParseError::ExcludedBranch(2750471357152633230u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7347749870002275487u64));
+return Err(ParseError::ExcludedBranch(8306706226429158303u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10748847049349746078u64));
+return Err(ParseError::ExcludedBranch(8033982984919675631u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14220958138979104104u64));
+return Err(ParseError::ExcludedBranch(7258731811542513498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17741760072369420240u64));
+return Err(ParseError::ExcludedBranch(1283209893442238385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12223407337737822059u64));
+return Err(ParseError::ExcludedBranch(1920187793319100008u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6072942808717419822u64));
+return Err(ParseError::ExcludedBranch(7474037925185307628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15560056883377919848u64));
+return Err(ParseError::ExcludedBranch(4475730102931494177u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7977419944699061624u64));
+return Err(ParseError::ExcludedBranch(17780439059155340308u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8323252642575612937u64));
+return Err(ParseError::ExcludedBranch(6739127967943113267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11678443062630698028u64));
+return Err(ParseError::ExcludedBranch(10170756778737993654u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14832405617500840744u64));
+return Err(ParseError::ExcludedBranch(14306133355400503306u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1398536204687975789u64));
+return Err(ParseError::ExcludedBranch(8902666087419502325u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7336714497745271452u64));
+return Err(ParseError::ExcludedBranch(10248009767256971850u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4152914559762097168u64));
+return Err(ParseError::ExcludedBranch(7807103255128873628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1152534299541961510u64));
+return Err(ParseError::ExcludedBranch(7840596951976883698u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5095757730543354711u64));
+return Err(ParseError::ExcludedBranch(8004105446758774533u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4668055697655854201u64));
+return Err(ParseError::ExcludedBranch(12569316739694558801u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6515957116553005671u64));
+return Err(ParseError::ExcludedBranch(2967911718584065013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2017059186547121525u64));
+return Err(ParseError::ExcludedBranch(7227788188777836434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11789784461021426583u64));
+return Err(ParseError::ExcludedBranch(2859130192484418172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16022216421479351095u64));
+return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15337804701822118436u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2750471357152633230u64));
+return Err(ParseError::ExcludedBranch(1891774877762105457u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8306706226429158303u64));
+return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8033982984919675631u64));
+return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7258731811542513498u64));
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1283209893442238385u64));
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1920187793319100008u64));
+return Err(ParseError::ExcludedBranch(3998072683184925592u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7474037925185307628u64));
+return Err(ParseError::ExcludedBranch(29850628954056690u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4475730102931494177u64));
+return Err(ParseError::ExcludedBranch(7279615132236188739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17780439059155340308u64));
+return Err(ParseError::ExcludedBranch(17636172564439370608u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6739127967943113267u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10170756778737993654u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14306133355400503306u64));
+return Err(ParseError::ExcludedBranch(2157707350523277837u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8902666087419502325u64));
+return Err(ParseError::ExcludedBranch(15134222038433106385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10248009767256971850u64));
+return Err(ParseError::ExcludedBranch(14950271805613481359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7807103255128873628u64));
+return Err(ParseError::ExcludedBranch(5499566165243611472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7840596951976883698u64));
+return Err(ParseError::ExcludedBranch(11265176092564100083u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8004105446758774533u64));
+return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12569316739694558801u64));
+return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2967911718584065013u64));
+return Err(ParseError::ExcludedBranch(5334325531610156978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7227788188777836434u64));
+return Err(ParseError::ExcludedBranch(16975008930446149745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2859130192484418172u64));
+return Err(ParseError::ExcludedBranch(760820951392925727u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12550558264664848853u64));
+return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
+return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1891774877762105457u64));
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
+return Err(ParseError::ExcludedBranch(15786118691017431738u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 };
 _input.close_peek_context()?;
@@ -30543,7 +30543,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 };
 accum.push(next_elem)
@@ -30569,7 +30569,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6882184431082022206u64));
+return Err(ParseError::FalsifiedWhere(7931358881575056193u64));
 }
 };
 let flags = {
@@ -30605,7 +30605,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 let arg1 = {
@@ -30613,7 +30613,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
 }
 };
 let arg2 = {
@@ -30621,7 +30621,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 };
 let arg3 = {
@@ -30629,7 +30629,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30670,7 +30670,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16714498072262546943u64)
+try_sub!(x, 16u64, 14687724984806605719u64)
 },
 
 _ => {
@@ -30832,7 +30832,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 8385173961957899741u64)
 },
 
 _ => {
@@ -30866,7 +30866,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -31014,8 +31014,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13752480002470540422u64));
 }
 };
 let rate = {
@@ -31087,7 +31087,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 5534609128357633386u64)
 },
 
 _ => {
@@ -31201,7 +31201,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -31331,8 +31331,8 @@ mpeg4_tkhd_data_fields_version1 { creation_time, modification_time, track_ID, re
 mpeg4_tkhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2662265345698212949u64));
 }
 };
 let reserved2 = {
@@ -31401,7 +31401,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 8599210436172030522u64)
 },
 
 _ => {
@@ -31465,7 +31465,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 15403934492100194569u64)
 },
 
 _ => {
@@ -31585,7 +31585,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 _input.close_peek_context()?;
@@ -31598,7 +31598,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 };
 accum.push(next_elem)
@@ -31613,7 +31613,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 chars.clone()
@@ -31672,8 +31672,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 let language = {
@@ -31704,7 +31704,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7931358881575056193u64)
+try_sub!(x, 16u64, 15601622509425384091u64)
 },
 
 _ => {
@@ -31860,7 +31860,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 4569970360394099475u64)
 },
 
 _ => {
@@ -31924,7 +31924,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 15293691521783146694u64)
 },
 
 _ => {
@@ -32329,7 +32329,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 8403192837054512577u64)
 },
 
 _ => {
@@ -32415,7 +32415,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 3975307768385535064u64)
 },
 
 _ => {
@@ -32659,7 +32659,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 _input.close_peek_context()?;
@@ -32672,7 +32672,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6881565717664829242u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 accum.push(next_elem)
@@ -32687,7 +32687,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 chars.clone()
@@ -32803,8 +32803,8 @@ accum
 mpeg4_iref_data_single_item_reference::large(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32888,8 +32888,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 };
 let extent_count = {
@@ -32930,7 +32930,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 13181260675040079306u64)
 },
 
 _ => {
@@ -33014,7 +33014,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 7795160901559545235u64)
 },
 
 _ => {
@@ -33115,8 +33115,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33137,8 +33137,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 let extent_length = match length_size {
@@ -33159,8 +33159,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33183,7 +33183,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 9892894478446917378u64)
 },
 
 _ => {
@@ -33238,7 +33238,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 5208404121666294786u64)
 },
 
 _ => {
@@ -33293,7 +33293,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 13751590285972774894u64)
 },
 
 _ => {
@@ -33390,7 +33390,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 _input.close_peek_context()?;
@@ -33403,7 +33403,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 accum.push(next_elem)
@@ -33418,7 +33418,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 chars.clone()
@@ -33440,7 +33440,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 _input.close_peek_context()?;
@@ -33453,7 +33453,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 accum.push(next_elem)
@@ -33468,7 +33468,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 chars.clone()
@@ -33490,7 +33490,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 _input.close_peek_context()?;
@@ -33503,7 +33503,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 accum.push(next_elem)
@@ -33518,7 +33518,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 chars.clone()
@@ -33564,7 +33564,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 _input.close_peek_context()?;
@@ -33577,7 +33577,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 accum.push(next_elem)
@@ -33592,7 +33592,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 chars.clone()
@@ -33639,7 +33639,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 _input.close_peek_context()?;
@@ -33652,7 +33652,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 accum.push(next_elem)
@@ -33667,7 +33667,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 chars.clone()
@@ -33694,7 +33694,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 _input.close_peek_context()?;
@@ -33707,7 +33707,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 accum.push(next_elem)
@@ -33722,7 +33722,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 chars.clone()
@@ -33737,7 +33737,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 let marker = {
@@ -33745,7 +33745,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33900,11 +33900,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34025,11 +34025,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34045,7 +34045,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 }
 };
@@ -34151,11 +34151,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34180,7 +34180,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 let marker = {
@@ -34188,7 +34188,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34211,11 +34211,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34233,7 +34233,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 })
 }
@@ -34331,11 +34331,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34448,7 +34448,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 })
 }
@@ -34514,11 +34514,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34591,7 +34591,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 })
 }
@@ -34696,11 +34696,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34728,7 +34728,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 let marker = {
@@ -34736,7 +34736,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 jpeg_soi { marker }
@@ -34855,11 +34855,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34887,7 +34887,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 let marker = {
@@ -34895,7 +34895,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 jpeg_soi { marker }
@@ -35058,13 +35058,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 _input.close_peek_context()?;
@@ -35169,13 +35169,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 _input.close_peek_context()?;
@@ -35229,7 +35229,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 })
 }
@@ -35249,7 +35249,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 _input.close_peek_context()?;
@@ -35262,7 +35262,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 },
 
@@ -35273,7 +35273,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let arg1 = {
@@ -35281,7 +35281,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 (arg0, arg1)
@@ -35290,7 +35290,7 @@ return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 })
 }
@@ -35302,7 +35302,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -35310,7 +35310,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35323,7 +35323,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -35331,7 +35331,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35344,7 +35344,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -35352,7 +35352,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35365,7 +35365,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35373,7 +35373,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35386,7 +35386,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -35394,7 +35394,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35407,7 +35407,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -35415,7 +35415,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35428,7 +35428,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -35436,7 +35436,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35449,7 +35449,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -35457,7 +35457,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35474,7 +35474,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
+return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
 }
 };
 let image_components = {
@@ -35494,7 +35494,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5117297982688264891u64));
+return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
 }
 };
 let end_spectral_selection = {
@@ -35506,7 +35506,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
+return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35543,7 +35543,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
 })
 }
 
@@ -35561,7 +35561,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35715,13 +35715,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 _input.close_peek_context()?;
@@ -35785,7 +35785,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 let marker = {
@@ -35793,7 +35793,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 jpeg_soi { marker }
@@ -35820,7 +35820,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 let marker = {
@@ -35828,7 +35828,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 jpeg_soi { marker }
@@ -35855,7 +35855,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let marker = {
@@ -35863,7 +35863,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 jpeg_soi { marker }
@@ -35890,7 +35890,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -35898,7 +35898,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -35925,7 +35925,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -35933,7 +35933,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -35960,7 +35960,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -35968,7 +35968,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -35995,7 +35995,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -36003,7 +36003,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -36030,7 +36030,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -36038,7 +36038,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -36065,7 +36065,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -36073,7 +36073,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -36100,7 +36100,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -36108,7 +36108,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36135,7 +36135,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36143,7 +36143,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36170,7 +36170,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -36178,7 +36178,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -36205,7 +36205,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -36213,7 +36213,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -36243,7 +36243,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
 }
 };
 let num_lines = {
@@ -36262,7 +36262,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(787921071240225899u64));
 }
 };
 let num_image_components = {
@@ -36274,7 +36274,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
 }
 };
 let image_components = {
@@ -36306,7 +36306,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36320,7 +36320,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -36328,7 +36328,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -36382,7 +36382,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -36390,7 +36390,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -36417,7 +36417,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 let marker = {
@@ -36425,7 +36425,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 jpeg_soi { marker }
@@ -36452,7 +36452,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let marker = {
@@ -36460,7 +36460,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 jpeg_soi { marker }
@@ -36487,7 +36487,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -36495,7 +36495,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -36522,7 +36522,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -36530,7 +36530,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -36557,7 +36557,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -36565,7 +36565,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -36612,7 +36612,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 let marker = {
@@ -36620,7 +36620,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 jpeg_soi { marker }
@@ -36667,7 +36667,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let marker = {
@@ -36675,7 +36675,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 jpeg_soi { marker }
@@ -36722,7 +36722,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let marker = {
@@ -36730,7 +36730,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 jpeg_soi { marker }
@@ -36777,7 +36777,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 let marker = {
@@ -36785,7 +36785,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 jpeg_soi { marker }
@@ -36832,7 +36832,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 let marker = {
@@ -36840,7 +36840,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 jpeg_soi { marker }
@@ -36887,7 +36887,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 let marker = {
@@ -36895,7 +36895,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 jpeg_soi { marker }
@@ -36942,7 +36942,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 let marker = {
@@ -36950,7 +36950,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 jpeg_soi { marker }
@@ -36997,7 +36997,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 let marker = {
@@ -37005,7 +37005,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 jpeg_soi { marker }
@@ -37052,7 +37052,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let marker = {
@@ -37060,7 +37060,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 jpeg_soi { marker }
@@ -37107,7 +37107,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let marker = {
@@ -37115,7 +37115,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 jpeg_soi { marker }
@@ -37162,7 +37162,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 let marker = {
@@ -37170,7 +37170,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 jpeg_soi { marker }
@@ -37217,7 +37217,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 let marker = {
@@ -37225,7 +37225,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 jpeg_soi { marker }
@@ -37272,7 +37272,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 let marker = {
@@ -37280,7 +37280,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 jpeg_soi { marker }
@@ -37327,7 +37327,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 let marker = {
@@ -37335,7 +37335,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 jpeg_soi { marker }
@@ -37393,7 +37393,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 _input.close_peek_context()?;
@@ -37406,7 +37406,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 accum.push(next_elem)
@@ -37421,7 +37421,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 chars.clone()
@@ -37477,7 +37477,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37529,7 +37529,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 _input.close_peek_context()?;
@@ -37542,7 +37542,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 accum.push(next_elem)
@@ -37557,7 +37557,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 chars.clone()
@@ -37614,7 +37614,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
+return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
 }
 };
 let density_x = {
@@ -37629,7 +37629,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9933460716242958610u64));
+return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
 }
 };
 let density_y = {
@@ -37644,7 +37644,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
+return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37706,7 +37706,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(16535687493193441589u64));
 })
 }
 
@@ -37761,7 +37761,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(16678380679225161433u64));
 })
 }
 
@@ -37795,8 +37795,8 @@ accum
 jpeg_dqt_data_elements::Shorts(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 })
 }
@@ -37819,7 +37819,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 _input.close_peek_context()?;
@@ -37832,7 +37832,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 accum.push(next_elem)
@@ -37847,7 +37847,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37872,7 +37872,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 _input.close_peek_context()?;
@@ -37885,7 +37885,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 accum.push(next_elem)
@@ -37900,7 +37900,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 chars.clone()
@@ -37990,7 +37990,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 _input.close_peek_context()?;
@@ -38021,7 +38021,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 accum.push(next_elem)
@@ -38050,7 +38050,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 accum.push(next_elem)
@@ -38081,7 +38081,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 _input.close_peek_context()?;
@@ -38094,7 +38094,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 accum.push(next_elem)
@@ -38109,7 +38109,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38134,7 +38134,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 _input.close_peek_context()?;
@@ -38147,7 +38147,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 accum.push(next_elem)
@@ -38162,7 +38162,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 chars.clone()
@@ -38178,7 +38178,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 let arg1 = {
@@ -38186,7 +38186,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 let arg2 = {
@@ -38194,7 +38194,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38244,7 +38244,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 }
 },
@@ -38254,7 +38254,7 @@ return Err(ParseError::ExcludedBranch(389354767835086292u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 _input.close_peek_context()?;
@@ -38273,7 +38273,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 })
 }
@@ -38285,7 +38285,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38309,7 +38309,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 }
 },
@@ -38319,7 +38319,7 @@ return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 _input.close_peek_context()?;
@@ -38336,7 +38336,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 }
 };
@@ -38361,11 +38361,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38383,7 +38383,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 })
 }
@@ -38395,7 +38395,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 let label = {
@@ -38403,7 +38403,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 let block_size = {
@@ -38411,7 +38411,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let identifier = {
@@ -38439,7 +38439,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 _input.close_peek_context()?;
@@ -38466,7 +38466,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 let label = {
@@ -38474,7 +38474,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 let comment_data = {
@@ -38493,7 +38493,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 _input.close_peek_context()?;
@@ -38520,7 +38520,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let data = {
@@ -38540,7 +38540,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 })
 }
 
@@ -38551,7 +38551,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 let label = {
@@ -38559,7 +38559,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let block_size = {
@@ -38567,7 +38567,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38595,7 +38595,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 _input.close_peek_context()?;
@@ -38614,7 +38614,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 })
 }
@@ -38643,7 +38643,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 let label = {
@@ -38651,7 +38651,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 let block_size = {
@@ -38659,7 +38659,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 let text_grid_left_position = {
@@ -38698,7 +38698,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 _input.close_peek_context()?;
@@ -38725,7 +38725,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 let image_left_position = {
@@ -38775,7 +38775,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 _input.close_peek_context()?;
@@ -38907,55 +38907,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 };
 _input.close_peek_context()?;
@@ -38970,7 +38970,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 }
 };
 accum.push(next_elem)
@@ -38984,7 +38984,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 };
 (arg0, arg1)
@@ -39012,7 +39012,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39045,7 +39045,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
+return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
 }
 };
 let num_image_components = {
@@ -39057,7 +39057,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
+return Err(ParseError::FalsifiedWhere(17498679062468273557u64));
 }
 };
 let image_components = {
@@ -39080,7 +39080,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39102,7 +39102,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(9104412661124805519u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39116,7 +39116,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 let marker = {
@@ -39124,7 +39124,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(13391927636850586680u64));
 }
 };
 jpeg_soi { marker }
@@ -39171,7 +39171,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(5585407796242218698u64));
 }
 };
 let marker = {
@@ -39179,7 +39179,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 jpeg_soi { marker }
@@ -39217,7 +39217,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
+return Err(ParseError::FalsifiedWhere(401211890982280023u64));
 }
 };
 let num_image_components = {
@@ -39229,7 +39229,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14565187915810837879u64));
+return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
 }
 };
 let image_components = {
@@ -39251,7 +39251,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(16926640000337048185u64));
 }
 };
 let marker = {
@@ -39259,7 +39259,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(14305107858950733127u64));
 }
 };
 jpeg_soi { marker }
@@ -39294,7 +39294,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(14247107068446105269u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index b6a5fc7..de8de78 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3416,8 +3416,11 @@ where
                     Refutability::Refutable | Refutability::Indeterminate => {
                         RustMatchBody::Refutable(
                             branches,
-                            RustCatchAll::PanicUnreachable {
-                                message: Label::from("ExprMatch refuted: "),
+                            RustCatchAll::ReturnErrorValue {
+                                value: Box::new(model::err_fallthrough(get_trace(&(
+                                    format!("{expr:?}"),
+                                    "refuted",
+                                )))),
                             },
                         )
                     }
diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 6f9022d..099e95a 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3522,6 +3522,7 @@ impl RustStmt {
 
 #[derive(Clone, Debug)]
 pub(crate) enum RustCatchAll {
+    #[allow(dead_code)]
     PanicUnreachable { message: Label },
     ReturnErrorValue { value: Box<RustExpr> },
 }
diff --git a/src/decoder.rs b/src/decoder.rs
index 1fd20eb..a9df6f4 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1587,11 +1587,10 @@ impl Decoder {
                             .map(|(v, input)| (Value::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                Err(DecodeErrorKind::NoValidBranch {
+                    offset: input.offset,
+                }
+                .with_trace(("Match(refuted)", format!("{head:?}"))))
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval(scope);
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index becf604..7f2b9c2 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1780,11 +1780,9 @@ impl Decoder {
                             .map(|(v, input)| (ParsedValue::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                Err(DecodeErrorKind::NoValidBranch {
+                    offset: input.offset,
+                })
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval_with_loc(scope);
-- 
2.43.0


From 7b34b4c6758a6c7b2efa2f4113fd093bb33fcb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:16 +0000
Subject: [PATCH 32/59] fix: stored blocks with a wrong NLEN and the reserved
 length codes 286/287 must be refused by deflate

---
 doodle-formats/src/format/deflate.rs |   17 +-
 generated/gencode.rs                 | 1306 +++++++++++++-------------
 2 files changed, 672 insertions(+), 651 deletions(-)

diff --git a/doodle-formats/src/format/deflate.rs b/doodle-formats/src/format/deflate.rs
index d65a860..618671d 100644
--- a/doodle-formats/src/format/deflate.rs
+++ b/doodle-formats/src/format/deflate.rs
@@ -374,6 +374,15 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
             ("__align", Format::Align(8)),
             ("len", bits16(16)),
             ("nlen", bits16(16)),
+            // NLEN is the one's complement of LEN (RFC 1951, 3.2.4)
+            (
+                "__nlen",
+                where_lambda(
+                    compute(var("nlen")),
+                    "n",
+                    expr_eq(var("n"), sub(Expr::U16(0xffff), var("len"))),
+                ),
+            ),
             ("bytes", repeat_count(var("len"), bits8(8))),
             (
                 "codes-values",
@@ -521,8 +530,8 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
                                             Pattern::U16(285),
                                             fmt_some(length_record_fixed(258, 0, distance_record)),
                                         ),
-                                        // REVIEW - consider whether we want to use Format::Fail instead
-                                        (Pattern::Int(Bounds::new(286, 287)), fmt_none()),
+                                        // 286 and 287 never occur in compressed data (RFC 1951, 3.2.6)
+                                        (Pattern::Int(Bounds::new(286, 287)), Format::Fail),
                                         (Pattern::Wildcard, fmt_none()),
                                     ],
                                 ),
@@ -919,8 +928,8 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
                                                 Pattern::U16(285),
                                                 fmt_some(length_record(258, 0, distance_record)),
                                             ),
-                                            // NOTE - currently no difference in behavior compared to wildcard pattern, but adds specificity/clarity, and gives us an easy hook to treat as erroneous
-                                            (Pattern::Int(Bounds::new(286, 287)), fmt_none()),
+                                            // 286 and 287 never occur in compressed data (RFC 1951, 3.2.6)
+                                            (Pattern::Int(Bounds::new(286, 287)), Format::Fail),
                                             (Pattern::Wildcard, fmt_none()),
                                         ],
                                     ),
diff --git a/generated/gencode.rs b/generated/gencode.rs
index 6106c95..3cd291b 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -14771,6 +14771,18 @@ let nlen = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 (bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16 | (bits.13 as u16) << 13u16 | (bits.14 as u16) << 14u16 | (bits.15 as u16) << 15u16
 };
+{
+let inner = nlen;
+let is_valid = {
+let n = inner;
+n == (try_sub!(65535u16, len, 3426398976290336157u64))
+};
+if is_valid {
+inner
+} else {
+return Err(ParseError::FalsifiedWhere(11250208753083412758u64));
+}
+};
 let bytes = {
 let mut accum = Vec::new();
 for _ in 0..len {
@@ -15378,7 +15390,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 },
 
 286u16..=287u16 => {
-None
+return Err(ParseError::FailToken(17349123374714965876u64));
 },
 
 _ => {
@@ -15794,7 +15806,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 },
 
 286u16..=287u16 => {
-None
+return Err(ParseError::FailToken(2153064741293804702u64));
 },
 
 _ => {
@@ -15890,7 +15902,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3426398976290336157u64));
+return Err(ParseError::ExcludedBranch(3249387167439447765u64));
 }
 }))
 },
@@ -16042,11 +16054,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(11250208753083412758u64));
+return Err(ParseError::FailToken(7744051144774795087u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17349123374714965876u64));
+return Err(ParseError::ExcludedBranch(8700288293163706751u64));
 }
 })
 }
@@ -16124,7 +16136,7 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(16771529512960957239u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16177,7 +16189,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13846498452079501214u64));
 inner
 }
 };
@@ -16243,7 +16255,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
 }
 };
 let variation_regions = {
@@ -16416,7 +16428,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9819345728844658158u64));
 inner
 }
 };
@@ -16438,7 +16450,7 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8700288293163706751u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 let map_data = {
@@ -16500,7 +16512,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
+return Err(ParseError::FalsifiedWhere(14954891776835932150u64));
 }
 };
 let tuple_variation_headers = {
@@ -16693,7 +16705,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(13404710972790825894u64));
 }
 };
 _input.close_peek_context()?;
@@ -16707,7 +16719,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13846498452079501214u64));
+return Err(ParseError::ExcludedBranch(11046436797737227751u64));
 }
 };
 (0u16, [].to_vec())
@@ -16719,7 +16731,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9798710097031164942u64));
+return Err(ParseError::ExcludedBranch(14984809111992638634u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16731,7 +16743,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9819345728844658158u64));
+return Err(ParseError::ExcludedBranch(9342187932533045817u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16739,7 +16751,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14954891776835932150u64));
+return Err(ParseError::ExcludedBranch(2688427941405105545u64));
 }
 })
 }
@@ -16869,7 +16881,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
 inner
 }
 };
@@ -17018,7 +17030,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
 inner
 }
 };
@@ -17034,7 +17046,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
 inner
 }
 };
@@ -17090,7 +17102,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1179945139148562335u64));
 inner
 }
 };
@@ -17106,7 +17118,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3270685119814653163u64));
 inner
 }
 };
@@ -17248,7 +17260,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
 }
 };
 let table_scope = table_view;
@@ -17264,7 +17276,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let extension_offset = {
@@ -17317,11 +17329,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 })
 }
@@ -17345,7 +17357,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17392,7 +17404,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6821845925776570829u64));
+return Err(ParseError::ExcludedBranch(6495907546257147840u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17414,7 +17426,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let coverage = {
@@ -17463,7 +17475,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
 }
 };
 let coverage = {
@@ -17521,7 +17533,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9179996462972575343u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17552,7 +17564,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(16529910322175208638u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17573,7 +17585,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
 }
 };
 let table_scope = table_view;
@@ -17704,7 +17716,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8327471529801851430u64));
+return Err(ParseError::FailToken(8766708729375264031u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17952,7 +17964,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(1369437808023015077u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18194,7 +18206,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 }
 };
 let seq_lookup_count = {
@@ -18432,7 +18444,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16529910322175208638u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
 inner
 }
 };
@@ -18581,7 +18593,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 let table_scope = table_view;
@@ -18597,7 +18609,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 let extension_offset = {
@@ -18655,11 +18667,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(1369437808023015077u64));
+return Err(ParseError::FailToken(3595277668730903043u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(5446531490235636452u64));
 }
 })
 }
@@ -18683,7 +18695,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(12530712830475607577u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18708,7 +18720,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4770836931378141069u64));
+return Err(ParseError::FailToken(1386817607731947864u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18729,7 +18741,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
+return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
 }
 };
 let table_scope = table_view;
@@ -18771,7 +18783,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(3923207427992258326u64));
 }
 };
 let table_scope = table_view;
@@ -18830,7 +18842,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
+return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
 }
 };
 let mark_coverage = {
@@ -18887,7 +18899,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(15995337135637623051u64));
 }
 };
 let table_scope = table_view;
@@ -19045,7 +19057,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1386817607731947864u64));
+return Err(ParseError::FailToken(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19193,7 +19205,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4795509455376621436u64));
+return Err(ParseError::ExcludedBranch(10243418979491025991u64));
 }
 };
 let arg1 = {
@@ -19201,7 +19213,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3923207427992258326u64));
+return Err(ParseError::ExcludedBranch(6726475111737435495u64));
 }
 };
 (arg0, arg1)
@@ -20139,7 +20151,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -20230,7 +20242,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(15995337135637623051u64));
+return Err(ParseError::FailToken(14926982082392674388u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20479,7 +20491,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4063460887563813446u64));
+return Err(ParseError::FailToken(13281230340934385869u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20543,7 +20555,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10243418979491025991u64));
+return Err(ParseError::FailToken(2229770659268432585u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21192,7 +21204,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6726475111737435495u64));
+return Err(ParseError::FalsifiedWhere(8862619478422395719u64));
 }
 };
 let max_twilight_points = {
@@ -21235,7 +21247,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
+return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21331,7 +21343,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14926982082392674388u64));
+return Err(ParseError::ExcludedBranch(13266006752343456203u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21354,7 +21366,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -21379,7 +21391,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21422,7 +21434,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21437,7 +21449,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
+return Err(ParseError::FalsifiedWhere(2508979988921372290u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21458,7 +21470,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21474,7 +21486,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
+return Err(ParseError::FalsifiedWhere(11815677057767015929u64));
 }
 };
 let language = {
@@ -21595,7 +21607,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21620,7 +21632,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21674,7 +21686,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21755,7 +21767,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21806,7 +21818,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21822,7 +21834,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21847,7 +21859,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -21863,7 +21875,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -21918,7 +21930,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -21934,7 +21946,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -21959,7 +21971,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -21975,7 +21987,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22029,7 +22041,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22045,7 +22057,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22070,7 +22082,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22086,7 +22098,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22133,7 +22145,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22149,7 +22161,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -22174,7 +22186,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
 inner
 }
 };
@@ -22190,7 +22202,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14339975513692068616u64));
 inner
 }
 };
@@ -22237,7 +22249,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16299205781335471965u64));
 inner
 }
 };
@@ -22262,7 +22274,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1479153625485860551u64));
 inner
 }
 };
@@ -22429,7 +22441,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4649034608147552416u64));
+return Err(ParseError::FalsifiedWhere(12668500753644823654u64));
 })
 }
 
@@ -22447,7 +22459,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 })
 }
@@ -22466,7 +22478,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 })
 }
@@ -22485,7 +22497,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 })
 }
@@ -22615,7 +22627,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 };
 let arg1 = {
@@ -22623,7 +22635,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 }
 };
 let arg2 = {
@@ -22631,7 +22643,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(1969670610881234889u64));
 }
 };
 let arg3 = {
@@ -22639,7 +22651,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(9038350950373664822u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22671,7 +22683,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 }
 };
 accum.push(next_elem)
@@ -22694,7 +22706,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7230273548678969972u64));
+return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
 })
 }
 
@@ -22713,7 +22725,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
+return Err(ParseError::FalsifiedWhere(14681668243282477517u64));
 })
 }
 
@@ -22743,7 +22755,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
+return Err(ParseError::FalsifiedWhere(6209434968043366837u64));
 })
 }
 
@@ -22757,7 +22769,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
+return Err(ParseError::FalsifiedWhere(16474038368490899078u64));
 })
 }
 
@@ -22771,7 +22783,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
+return Err(ParseError::FalsifiedWhere(12217686503432178884u64));
 })
 }
 
@@ -22832,7 +22844,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15510952803379905659u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 _input.close_peek_context()?;
@@ -22845,7 +22857,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14681668243282477517u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 accum.push(next_elem)
@@ -22878,7 +22890,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 accum.push(next_elem)
@@ -22913,7 +22925,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16474038368490899078u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 _input.close_peek_context()?;
@@ -22926,7 +22938,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12217686503432178884u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
 accum.push(next_elem)
@@ -22959,7 +22971,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
 accum.push(next_elem)
@@ -22994,7 +23006,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 }
 };
 _input.close_peek_context()?;
@@ -23007,7 +23019,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
 accum.push(next_elem)
@@ -23040,7 +23052,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
 accum.push(next_elem)
@@ -23063,10 +23075,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8179432974518885725u64)
+try_sub!(bit as u8, 48u8, 12100308281236296642u64)
 };
 let _o9 = {
 let bit = {
@@ -23074,10 +23086,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5152282179373241998u64));
+return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16909208071962620789u64)
+try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
 let _o8 = {
 let bit = {
@@ -23085,10 +23097,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7933266403838225878u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9041056097467752267u64)
+try_sub!(bit as u8, 48u8, 16437491640759399344u64)
 };
 let _o7 = {
 let bit = {
@@ -23096,10 +23108,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5025197102194587315u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
-try_sub!(bit as u8, 48u8, 15252450768049745444u64)
+try_sub!(bit as u8, 48u8, 17176374570344757031u64)
 };
 let _o6 = {
 let bit = {
@@ -23107,10 +23119,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5599331855309773603u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2988545765690796708u64)
+try_sub!(bit as u8, 48u8, 3653195934333285574u64)
 };
 let _o5 = {
 let bit = {
@@ -23118,10 +23130,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3566920116549027235u64)
+try_sub!(bit as u8, 48u8, 8898504689444561451u64)
 };
 let _o4 = {
 let bit = {
@@ -23129,10 +23141,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16671136947067655757u64)
+try_sub!(bit as u8, 48u8, 10046433636842398056u64)
 };
 let _o3 = {
 let bit = {
@@ -23140,10 +23152,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
-try_sub!(bit as u8, 48u8, 441240706992005484u64)
+try_sub!(bit as u8, 48u8, 5986772336072340665u64)
 };
 let _o2 = {
 let bit = {
@@ -23151,10 +23163,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
-try_sub!(bit as u8, 48u8, 11079395374415646537u64)
+try_sub!(bit as u8, 48u8, 2908689796368760670u64)
 };
 let _o1 = {
 let bit = {
@@ -23162,10 +23174,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8812292064350598352u64)
+try_sub!(bit as u8, 48u8, 4598583460226006268u64)
 };
 let _o0 = {
 let bit = {
@@ -23173,10 +23185,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
-try_sub!(bit as u8, 48u8, 4316175446384649956u64)
+try_sub!(bit as u8, 48u8, 15680765559661576738u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23204,7 +23216,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 _input.close_peek_context()?;
@@ -23217,7 +23229,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23250,7 +23262,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 accum.push(next_elem)
@@ -23285,7 +23297,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 _input.close_peek_context()?;
@@ -23298,7 +23310,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 accum.push(next_elem)
@@ -23331,7 +23343,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 accum.push(next_elem)
@@ -23360,7 +23372,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 let arg1 = {
@@ -23368,7 +23380,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg2 = {
@@ -23376,7 +23388,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 let arg3 = {
@@ -23384,7 +23396,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 let arg4 = {
@@ -23392,7 +23404,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 let arg5 = {
@@ -23400,7 +23412,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23411,7 +23423,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 let arg1 = {
@@ -23419,7 +23431,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 (arg0, arg1)
@@ -23458,7 +23470,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 _input.close_peek_context()?;
@@ -23471,7 +23483,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23504,7 +23516,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23539,7 +23551,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 _input.close_peek_context()?;
@@ -23552,7 +23564,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23585,7 +23597,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 accum.push(next_elem)
@@ -23615,7 +23627,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 accum.push(next_elem)
@@ -23646,7 +23658,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 _input.close_peek_context()?;
@@ -23665,7 +23677,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 accum.push(next_elem)
@@ -23698,7 +23710,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 accum.push(next_elem)
@@ -23717,7 +23729,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 })
 }
 
@@ -23739,7 +23751,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 _input.close_peek_context()?;
@@ -23752,7 +23764,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 accum.push(next_elem)
@@ -23784,7 +23796,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 accum.push(next_elem)
@@ -23815,7 +23827,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 _input.close_peek_context()?;
@@ -23828,7 +23840,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 accum.push(next_elem)
@@ -23866,7 +23878,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 accum.push(next_elem)
@@ -23895,7 +23907,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 _input.close_peek_context()?;
@@ -23909,7 +23921,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 let arg1 = {
@@ -23917,7 +23929,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23929,7 +23941,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 let arg1 = {
@@ -23937,14 +23949,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 })
 }
@@ -24153,7 +24165,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 })
 } else {
 None
@@ -24175,7 +24187,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
+return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24207,7 +24219,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
+return Err(ParseError::FalsifiedWhere(2466404913032252300u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24339,7 +24351,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
+return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24373,7 +24385,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
+return Err(ParseError::FalsifiedWhere(5869833854865239916u64));
 }
 };
 let flags = {
@@ -24416,7 +24428,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
+return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24434,7 +24446,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let arg1 = {
@@ -24442,7 +24454,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let arg2 = {
@@ -24450,7 +24462,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg3 = {
@@ -24458,7 +24470,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24471,7 +24483,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 let arg1 = {
@@ -24479,7 +24491,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let arg2 = {
@@ -24487,7 +24499,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 let arg3 = {
@@ -24495,7 +24507,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24537,7 +24549,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let arg1 = {
@@ -24545,7 +24557,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let arg2 = {
@@ -24553,7 +24565,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 let arg3 = {
@@ -24561,7 +24573,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24585,7 +24597,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 let arg1 = {
@@ -24593,7 +24605,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 let arg2 = {
@@ -24601,7 +24613,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 };
 let arg3 = {
@@ -24609,7 +24621,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24638,7 +24650,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 accum.push(next_elem)
@@ -24743,7 +24755,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 })
 }
@@ -24803,7 +24815,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 val.clone()
@@ -24813,7 +24825,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24872,7 +24884,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 })
 }
@@ -24888,7 +24900,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4514882359072253410u64));
+return Err(ParseError::FalsifiedWhere(15047091743774256727u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24903,7 +24915,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 val.clone()
@@ -24913,7 +24925,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 let compression_method = {
@@ -24921,7 +24933,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 let language_tag = {
@@ -24941,7 +24953,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 _input.close_peek_context()?;
@@ -24954,7 +24966,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 accum.push(next_elem)
@@ -24969,7 +24981,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 chars.clone()
@@ -24981,7 +24993,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 val.clone()
@@ -25068,7 +25080,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 val.clone()
@@ -25106,7 +25118,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 };
 val.clone()
@@ -25116,7 +25128,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 };
 let compressed_text = {
@@ -25200,7 +25212,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 })
 }
@@ -25257,7 +25269,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 };
 val.clone()
@@ -25267,7 +25279,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
 };
 let palette = match sample_depth {
@@ -25354,7 +25366,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25858,36 +25870,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
@@ -26329,12 +26311,42 @@ return Err(ParseError::ExcludedBranch(868434092978367357u64));
 _ => {
 return Err(ParseError::ExcludedBranch(496554245154466536u64));
 }
-};
-_input.close_peek_context()?;
-ret
 }
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+}
+};
+_input.close_peek_context()?;
+ret
+}
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
 break
 } else {
 let next_elem = {
@@ -26342,7 +26354,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+return Err(ParseError::ExcludedBranch(13980028702310773940u64));
 }
 };
 accum.push(next_elem)
@@ -26836,36 +26848,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(4312000683241916062u64));
 }
@@ -27307,6 +27289,36 @@ return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -27320,7 +27332,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
 };
 accum.push(next_elem)
@@ -27346,7 +27358,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9286045119570450224u64));
+return Err(ParseError::FalsifiedWhere(4360542291358407189u64));
 }
 };
 let flags = {
@@ -27859,36 +27871,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(11728165168471348185u64));
 }
@@ -28330,6 +28312,36 @@ return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 _ => {
 return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28343,7 +28355,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
 }
 };
 accum.push(next_elem)
@@ -28837,36 +28849,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
@@ -29308,6 +29290,36 @@ return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 _ => {
 return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29321,7 +29333,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+return Err(ParseError::ExcludedBranch(3933597635930613605u64));
 }
 };
 accum.push(next_elem)
@@ -29380,7 +29392,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
 }
 };
 _input.close_peek_context()?;
@@ -29413,7 +29425,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12268471799124361536u64));
+return Err(ParseError::FalsifiedWhere(1105171745447487568u64));
 }
 };
 let flags = {
@@ -29487,7 +29499,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
 }
 };
 _input.close_peek_context()?;
@@ -29558,7 +29570,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
 }
 };
 _input.close_peek_context()?;
@@ -30059,36 +30071,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(552953513858366451u64));
 }
@@ -30530,7 +30512,37 @@ return Err(ParseError::ExcludedBranch(15786118691017431738u64));
 _ => {
 return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
-};
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
+}
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30543,7 +30555,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
 };
 accum.push(next_elem)
@@ -30569,7 +30581,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7931358881575056193u64));
+return Err(ParseError::FalsifiedWhere(11570281271401624317u64));
 }
 };
 let flags = {
@@ -30605,7 +30617,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+return Err(ParseError::ExcludedBranch(14687724984806605719u64));
 }
 };
 let arg1 = {
@@ -30613,7 +30625,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11515797873012483658u64));
+return Err(ParseError::ExcludedBranch(1378805635639824117u64));
 }
 };
 let arg2 = {
@@ -30621,7 +30633,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8584109755265226714u64));
+return Err(ParseError::ExcludedBranch(8385173961957899741u64));
 }
 };
 let arg3 = {
@@ -30629,7 +30641,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8076978189295213982u64));
+return Err(ParseError::ExcludedBranch(8407356061009412694u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30670,7 +30682,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 13752480002470540422u64)
 },
 
 _ => {
@@ -30832,7 +30844,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 5534609128357633386u64)
 },
 
 _ => {
@@ -30866,7 +30878,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6881565717664829242u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -31015,7 +31027,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(2662265345698212949u64));
 }
 };
 let rate = {
@@ -31087,7 +31099,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 8599210436172030522u64)
 },
 
 _ => {
@@ -31201,7 +31213,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 15403934492100194569u64)
 },
 
 _ => {
@@ -31332,7 +31344,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2662265345698212949u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 let reserved2 = {
@@ -31401,7 +31413,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8599210436172030522u64)
+try_sub!(x, 16u64, 17888323854924040413u64)
 },
 
 _ => {
@@ -31465,7 +31477,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15403934492100194569u64)
+try_sub!(x, 16u64, 11074951631636946051u64)
 },
 
 _ => {
@@ -31585,7 +31597,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12041148194529633639u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 _input.close_peek_context()?;
@@ -31598,7 +31610,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 accum.push(next_elem)
@@ -31613,7 +31625,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 chars.clone()
@@ -31673,7 +31685,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 let language = {
@@ -31704,7 +31716,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15601622509425384091u64)
+try_sub!(x, 16u64, 15433822888775103886u64)
 },
 
 _ => {
@@ -31860,7 +31872,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4569970360394099475u64)
+try_sub!(x, 16u64, 17073037115051226650u64)
 },
 
 _ => {
@@ -31924,7 +31936,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15293691521783146694u64)
+try_sub!(x, 16u64, 10599514554463239458u64)
 },
 
 _ => {
@@ -32329,7 +32341,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8403192837054512577u64)
+try_sub!(x, 16u64, 12017601628070515145u64)
 },
 
 _ => {
@@ -32415,7 +32427,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3975307768385535064u64)
+try_sub!(x, 16u64, 10708294527730390829u64)
 },
 
 _ => {
@@ -32659,7 +32671,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 };
 _input.close_peek_context()?;
@@ -32672,7 +32684,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 accum.push(next_elem)
@@ -32687,7 +32699,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 chars.clone()
@@ -32804,7 +32816,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32889,7 +32901,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 };
 let extent_count = {
@@ -32930,7 +32942,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13181260675040079306u64)
+try_sub!(x, 16u64, 16679512278832019969u64)
 },
 
 _ => {
@@ -33014,7 +33026,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7795160901559545235u64)
+try_sub!(x, 16u64, 9892894478446917378u64)
 },
 
 _ => {
@@ -33116,7 +33128,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33138,7 +33150,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 };
 let extent_length = match length_size {
@@ -33160,7 +33172,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33183,7 +33195,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9892894478446917378u64)
+try_sub!(x, 16u64, 12552648416444111338u64)
 },
 
 _ => {
@@ -33238,7 +33250,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5208404121666294786u64)
+try_sub!(x, 16u64, 10776065777346510440u64)
 },
 
 _ => {
@@ -33293,7 +33305,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13751590285972774894u64)
+try_sub!(x, 16u64, 1550574349011231204u64)
 },
 
 _ => {
@@ -33390,7 +33402,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 _input.close_peek_context()?;
@@ -33403,7 +33415,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 accum.push(next_elem)
@@ -33418,7 +33430,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 chars.clone()
@@ -33440,7 +33452,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 _input.close_peek_context()?;
@@ -33453,7 +33465,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 accum.push(next_elem)
@@ -33468,7 +33480,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 chars.clone()
@@ -33490,7 +33502,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 _input.close_peek_context()?;
@@ -33503,7 +33515,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 accum.push(next_elem)
@@ -33518,7 +33530,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 chars.clone()
@@ -33564,7 +33576,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 _input.close_peek_context()?;
@@ -33577,7 +33589,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 accum.push(next_elem)
@@ -33592,7 +33604,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 chars.clone()
@@ -33639,7 +33651,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 _input.close_peek_context()?;
@@ -33652,7 +33664,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 accum.push(next_elem)
@@ -33667,7 +33679,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 chars.clone()
@@ -33694,7 +33706,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 _input.close_peek_context()?;
@@ -33707,7 +33719,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 accum.push(next_elem)
@@ -33722,7 +33734,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 };
 chars.clone()
@@ -33737,7 +33749,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 let marker = {
@@ -33745,7 +33757,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33900,11 +33912,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34025,11 +34037,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34045,7 +34057,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 }
 };
@@ -34151,11 +34163,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34180,7 +34192,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 let marker = {
@@ -34188,7 +34200,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34211,11 +34223,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34233,7 +34245,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 })
 }
@@ -34331,11 +34343,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34448,7 +34460,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 })
 }
@@ -34514,11 +34526,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34591,7 +34603,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 })
 }
@@ -34696,11 +34708,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34728,7 +34740,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 let marker = {
@@ -34736,7 +34748,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 jpeg_soi { marker }
@@ -34855,11 +34867,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34887,7 +34899,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 let marker = {
@@ -34895,7 +34907,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 jpeg_soi { marker }
@@ -35058,13 +35070,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 _input.close_peek_context()?;
@@ -35169,13 +35181,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 _input.close_peek_context()?;
@@ -35229,7 +35241,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 })
 }
@@ -35249,7 +35261,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 _input.close_peek_context()?;
@@ -35262,7 +35274,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 },
 
@@ -35273,7 +35285,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 let arg1 = {
@@ -35281,7 +35293,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 (arg0, arg1)
@@ -35290,7 +35302,7 @@ return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 })
 }
@@ -35302,7 +35314,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 let marker = {
@@ -35310,7 +35322,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35323,7 +35335,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 let marker = {
@@ -35331,7 +35343,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35344,7 +35356,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 let marker = {
@@ -35352,7 +35364,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35365,7 +35377,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 let marker = {
@@ -35373,7 +35385,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35386,7 +35398,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 let marker = {
@@ -35394,7 +35406,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35407,7 +35419,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 let marker = {
@@ -35415,7 +35427,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35428,7 +35440,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 let marker = {
@@ -35436,7 +35448,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35449,7 +35461,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 let marker = {
@@ -35457,7 +35469,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35474,7 +35486,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
+return Err(ParseError::FalsifiedWhere(180881308211696508u64));
 }
 };
 let image_components = {
@@ -35494,7 +35506,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
+return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
 }
 };
 let end_spectral_selection = {
@@ -35506,7 +35518,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35543,7 +35555,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
 })
 }
 
@@ -35561,7 +35573,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(16339654162669176472u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35715,13 +35727,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 _input.close_peek_context()?;
@@ -35785,7 +35797,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -35793,7 +35805,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -35820,7 +35832,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -35828,7 +35840,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -35855,7 +35867,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -35863,7 +35875,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -35890,7 +35902,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -35898,7 +35910,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -35925,7 +35937,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -35933,7 +35945,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -35960,7 +35972,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -35968,7 +35980,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -35995,7 +36007,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36003,7 +36015,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36030,7 +36042,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36038,7 +36050,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -36065,7 +36077,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -36073,7 +36085,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -36100,7 +36112,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 let marker = {
@@ -36108,7 +36120,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 jpeg_soi { marker }
@@ -36135,7 +36147,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 let marker = {
@@ -36143,7 +36155,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 jpeg_soi { marker }
@@ -36170,7 +36182,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 let marker = {
@@ -36178,7 +36190,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 jpeg_soi { marker }
@@ -36205,7 +36217,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 let marker = {
@@ -36213,7 +36225,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 jpeg_soi { marker }
@@ -36243,7 +36255,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
+return Err(ParseError::FalsifiedWhere(268478239438800266u64));
 }
 };
 let num_lines = {
@@ -36262,7 +36274,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(787921071240225899u64));
+return Err(ParseError::FalsifiedWhere(6301432137385173939u64));
 }
 };
 let num_image_components = {
@@ -36274,7 +36286,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
+return Err(ParseError::FalsifiedWhere(17762152702085771435u64));
 }
 };
 let image_components = {
@@ -36306,7 +36318,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
+return Err(ParseError::FalsifiedWhere(6803443871185192093u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36320,7 +36332,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -36328,7 +36340,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -36382,7 +36394,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let marker = {
@@ -36390,7 +36402,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 jpeg_soi { marker }
@@ -36417,7 +36429,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 let marker = {
@@ -36425,7 +36437,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 jpeg_soi { marker }
@@ -36452,7 +36464,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 let marker = {
@@ -36460,7 +36472,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 jpeg_soi { marker }
@@ -36487,7 +36499,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 let marker = {
@@ -36495,7 +36507,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 jpeg_soi { marker }
@@ -36522,7 +36534,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 let marker = {
@@ -36530,7 +36542,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 jpeg_soi { marker }
@@ -36557,7 +36569,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 let marker = {
@@ -36565,7 +36577,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 jpeg_soi { marker }
@@ -36612,7 +36624,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 let marker = {
@@ -36620,7 +36632,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 jpeg_soi { marker }
@@ -36667,7 +36679,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 let marker = {
@@ -36675,7 +36687,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 jpeg_soi { marker }
@@ -36722,7 +36734,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 let marker = {
@@ -36730,7 +36742,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 jpeg_soi { marker }
@@ -36777,7 +36789,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 let marker = {
@@ -36785,7 +36797,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 jpeg_soi { marker }
@@ -36832,7 +36844,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 let marker = {
@@ -36840,7 +36852,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 jpeg_soi { marker }
@@ -36887,7 +36899,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 let marker = {
@@ -36895,7 +36907,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 jpeg_soi { marker }
@@ -36942,7 +36954,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 let marker = {
@@ -36950,7 +36962,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 jpeg_soi { marker }
@@ -36997,7 +37009,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 let marker = {
@@ -37005,7 +37017,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 jpeg_soi { marker }
@@ -37052,7 +37064,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 let marker = {
@@ -37060,7 +37072,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 jpeg_soi { marker }
@@ -37107,7 +37119,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 let marker = {
@@ -37115,7 +37127,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 jpeg_soi { marker }
@@ -37162,7 +37174,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 let marker = {
@@ -37170,7 +37182,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 jpeg_soi { marker }
@@ -37217,7 +37229,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 let marker = {
@@ -37225,7 +37237,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 jpeg_soi { marker }
@@ -37272,7 +37284,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 let marker = {
@@ -37280,7 +37292,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 jpeg_soi { marker }
@@ -37327,7 +37339,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 let marker = {
@@ -37335,7 +37347,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 jpeg_soi { marker }
@@ -37393,7 +37405,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 _input.close_peek_context()?;
@@ -37406,7 +37418,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 accum.push(next_elem)
@@ -37421,7 +37433,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 chars.clone()
@@ -37477,7 +37489,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37529,7 +37541,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 _input.close_peek_context()?;
@@ -37542,7 +37554,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 accum.push(next_elem)
@@ -37557,7 +37569,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 chars.clone()
@@ -37614,7 +37626,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
+return Err(ParseError::FalsifiedWhere(11416999240256111317u64));
 }
 };
 let density_x = {
@@ -37629,7 +37641,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
+return Err(ParseError::FalsifiedWhere(13319962755558045565u64));
 }
 };
 let density_y = {
@@ -37644,7 +37656,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
+return Err(ParseError::FalsifiedWhere(17426992236827678217u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37706,7 +37718,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16535687493193441589u64));
+return Err(ParseError::FalsifiedWhere(1236150641026759388u64));
 })
 }
 
@@ -37761,7 +37773,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16678380679225161433u64));
+return Err(ParseError::FalsifiedWhere(12386662728078486919u64));
 })
 }
 
@@ -37796,7 +37808,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 })
 }
@@ -37819,7 +37831,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 _input.close_peek_context()?;
@@ -37832,7 +37844,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 accum.push(next_elem)
@@ -37847,7 +37859,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37872,7 +37884,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 _input.close_peek_context()?;
@@ -37885,7 +37897,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 accum.push(next_elem)
@@ -37900,7 +37912,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 chars.clone()
@@ -37990,7 +38002,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 _input.close_peek_context()?;
@@ -38021,7 +38033,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 accum.push(next_elem)
@@ -38050,7 +38062,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 accum.push(next_elem)
@@ -38081,7 +38093,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 _input.close_peek_context()?;
@@ -38094,7 +38106,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 accum.push(next_elem)
@@ -38109,7 +38121,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38134,7 +38146,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 _input.close_peek_context()?;
@@ -38147,7 +38159,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 accum.push(next_elem)
@@ -38162,7 +38174,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 chars.clone()
@@ -38178,7 +38190,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 let arg1 = {
@@ -38186,7 +38198,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 let arg2 = {
@@ -38194,7 +38206,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38244,7 +38256,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 }
 },
@@ -38254,7 +38266,7 @@ return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 _input.close_peek_context()?;
@@ -38273,7 +38285,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 })
 }
@@ -38285,7 +38297,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38309,7 +38321,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 }
 },
@@ -38319,7 +38331,7 @@ return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 _input.close_peek_context()?;
@@ -38336,7 +38348,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 }
 };
@@ -38361,11 +38373,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38383,7 +38395,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 })
 }
@@ -38395,7 +38407,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 let label = {
@@ -38403,7 +38415,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let block_size = {
@@ -38411,7 +38423,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let identifier = {
@@ -38439,7 +38451,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 _input.close_peek_context()?;
@@ -38466,7 +38478,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 let label = {
@@ -38474,7 +38486,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let comment_data = {
@@ -38493,7 +38505,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 _input.close_peek_context()?;
@@ -38520,7 +38532,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 let data = {
@@ -38540,7 +38552,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 })
 }
 
@@ -38551,7 +38563,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 let label = {
@@ -38559,7 +38571,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 let block_size = {
@@ -38567,7 +38579,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38595,7 +38607,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 _input.close_peek_context()?;
@@ -38614,7 +38626,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 })
 }
@@ -38643,7 +38655,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 let label = {
@@ -38651,7 +38663,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 let block_size = {
@@ -38659,7 +38671,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 };
 let text_grid_left_position = {
@@ -38698,7 +38710,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 };
 _input.close_peek_context()?;
@@ -38725,7 +38737,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 };
 let image_left_position = {
@@ -38775,7 +38787,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 };
 _input.close_peek_context()?;
@@ -38907,55 +38919,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 };
 _input.close_peek_context()?;
@@ -38970,7 +38982,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15666641356442195125u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 accum.push(next_elem)
@@ -38984,7 +38996,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8003682420837492218u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 };
 (arg0, arg1)
@@ -39012,7 +39024,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39045,7 +39057,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
+return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
 }
 };
 let num_image_components = {
@@ -39057,7 +39069,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17498679062468273557u64));
+return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
 }
 };
 let image_components = {
@@ -39080,7 +39092,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39102,7 +39114,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9104412661124805519u64));
+return Err(ParseError::FalsifiedWhere(401211890982280023u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39116,7 +39128,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(8351383702383589488u64));
 }
 };
 let marker = {
@@ -39124,7 +39136,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13391927636850586680u64));
+return Err(ParseError::ExcludedBranch(16926640000337048185u64));
 }
 };
 jpeg_soi { marker }
@@ -39171,7 +39183,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5585407796242218698u64));
+return Err(ParseError::ExcludedBranch(14305107858950733127u64));
 }
 };
 let marker = {
@@ -39179,7 +39191,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(14247107068446105269u64));
 }
 };
 jpeg_soi { marker }
@@ -39217,7 +39229,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(401211890982280023u64));
+return Err(ParseError::FalsifiedWhere(5774748803588796814u64));
 }
 };
 let num_image_components = {
@@ -39229,7 +39241,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
+return Err(ParseError::FalsifiedWhere(12564492979960735543u64));
 }
 };
 let image_components = {
@@ -39251,7 +39263,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16926640000337048185u64));
+return Err(ParseError::ExcludedBranch(2458638837424585123u64));
 }
 };
 let marker = {
@@ -39259,7 +39271,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14305107858950733127u64));
+return Err(ParseError::ExcludedBranch(15528204713822084965u64));
 }
 };
 jpeg_soi { marker }
@@ -39294,7 +39306,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14247107068446105269u64));
+return Err(ParseError::FalsifiedWhere(5036225068787254506u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From d8e02bf8c23992cba5618c9491bf82b5dad386c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:22 +0000
Subject: [PATCH 33/59] fix: generated lookahead must accept where the
 interpreter does

A lookahead node that both accepts and branches accepts on any other byte
and at the end of the input; generated code refused in both cases, so a
generated decoder rejected (or, inside a choice, skipped) what the
interpreter accepts.
---
 generated/gencode.rs | 2540 ++++++++++++++++++++++++------------------
 src/codegen/mod.rs   |   48 +-
 2 files changed, 1510 insertions(+), 1078 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3cd291b..a2e1c1b 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8905,7 +8905,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
 90u8 => {
 1
 },
@@ -8915,7 +8918,8 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -8963,7 +8967,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1453530207670075215u64));
+return Err(ParseError::ExcludedBranch(8638089167112501923u64));
 }
 };
 _input.close_peek_context()?;
@@ -9004,12 +9008,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -9077,9 +9085,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -9104,7 +9116,7 @@ let b = _input.read_byte()?;
 if b == 137 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15915510438164744429u64));
+return Err(ParseError::ExcludedBranch(1453530207670075215u64));
 }
 };
 let ix1 = {
@@ -9112,7 +9124,7 @@ let b = _input.read_byte()?;
 if b == 80 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1542992798780655146u64));
+return Err(ParseError::ExcludedBranch(15915510438164744429u64));
 }
 };
 let ix2 = {
@@ -9120,7 +9132,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7028560493922100069u64));
+return Err(ParseError::ExcludedBranch(1542992798780655146u64));
 }
 };
 let ix3 = {
@@ -9128,7 +9140,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2649783168072194737u64));
+return Err(ParseError::ExcludedBranch(7028560493922100069u64));
 }
 };
 let ix4 = {
@@ -9136,7 +9148,7 @@ let b = _input.read_byte()?;
 if b == 13 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8253205784254894771u64));
+return Err(ParseError::ExcludedBranch(2649783168072194737u64));
 }
 };
 let ix5 = {
@@ -9144,7 +9156,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1225514472166157741u64));
+return Err(ParseError::ExcludedBranch(8253205784254894771u64));
 }
 };
 let ix6 = {
@@ -9152,7 +9164,7 @@ let b = _input.read_byte()?;
 if b == 26 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1224415506115142500u64));
+return Err(ParseError::ExcludedBranch(1225514472166157741u64));
 }
 };
 let ix7 = {
@@ -9160,7 +9172,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16859485491091215361u64));
+return Err(ParseError::ExcludedBranch(1224415506115142500u64));
 }
 };
 vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
@@ -9192,7 +9204,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14898840355839773829u64));
+return Err(ParseError::ExcludedBranch(16859485491091215361u64));
 }
 }
 },
@@ -9202,7 +9214,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9453951600195794313u64));
+return Err(ParseError::ExcludedBranch(14898840355839773829u64));
 }
 }
 },
@@ -9216,7 +9228,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10036157788440812915u64));
+return Err(ParseError::ExcludedBranch(9453951600195794313u64));
 }
 }
 },
@@ -9226,7 +9238,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6349531732377484771u64));
+return Err(ParseError::ExcludedBranch(10036157788440812915u64));
 }
 };
 _input.close_peek_context()?;
@@ -9274,7 +9286,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13785646910930464515u64));
+return Err(ParseError::ExcludedBranch(6349531732377484771u64));
 }
 }
 },
@@ -9284,7 +9296,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5323644471994966730u64));
+return Err(ParseError::ExcludedBranch(13785646910930464515u64));
 }
 }
 },
@@ -9294,7 +9306,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13278122992382147879u64));
+return Err(ParseError::ExcludedBranch(5323644471994966730u64));
 }
 }
 },
@@ -9304,7 +9316,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18159646757349796721u64));
+return Err(ParseError::ExcludedBranch(13278122992382147879u64));
 }
 };
 _input.close_peek_context()?;
@@ -9364,7 +9376,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706606u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7124606020426797957u64));
+return Err(ParseError::ExcludedBranch(18159646757349796721u64));
 }
 }
 },
@@ -9374,7 +9386,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847690238u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15116592996336247086u64));
+return Err(ParseError::ExcludedBranch(7124606020426797957u64));
 }
 }
 },
@@ -9384,7 +9396,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10346499338674982396u64));
+return Err(ParseError::ExcludedBranch(15116592996336247086u64));
 }
 }
 },
@@ -9394,7 +9406,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10951432197815892834u64));
+return Err(ParseError::ExcludedBranch(10346499338674982396u64));
 }
 };
 _input.close_peek_context()?;
@@ -9422,7 +9434,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14864597187136898256u64));
+return Err(ParseError::ExcludedBranch(10951432197815892834u64));
 }
 };
 let arg1 = {
@@ -9430,7 +9442,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15238960955167157760u64));
+return Err(ParseError::ExcludedBranch(14864597187136898256u64));
 }
 };
 let arg2 = {
@@ -9438,7 +9450,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17527274083228188873u64));
+return Err(ParseError::ExcludedBranch(15238960955167157760u64));
 }
 };
 let arg3 = {
@@ -9446,7 +9458,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17855530393917176367u64));
+return Err(ParseError::ExcludedBranch(17527274083228188873u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9467,7 +9479,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11054356281452530428u64));
+return Err(ParseError::ExcludedBranch(17855530393917176367u64));
 })
 } else {
 None
@@ -9529,7 +9541,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(11054356281452530428u64));
 }
 };
 _input.close_peek_context()?;
@@ -9560,7 +9572,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(17406968167054271466u64));
 }
 };
 accum.push(next_elem)
@@ -9572,12 +9584,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -9589,7 +9605,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5409189036752851054u64));
+return Err(ParseError::ExcludedBranch(11100042044514704042u64));
 }
 };
 accum.push(next_elem)
@@ -9716,7 +9732,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4726315105662630465u64));
+return Err(ParseError::FailToken(5409189036752851054u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9730,7 +9746,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(4726315105662630465u64));
 }
 };
 let arg1 = {
@@ -9738,7 +9754,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(10036638040555853769u64));
 }
 };
 let arg2 = {
@@ -9746,7 +9762,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(13230337088401352826u64));
 }
 };
 let arg3 = {
@@ -9754,7 +9770,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(11460567998186064482u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9765,7 +9781,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9799,7 +9818,8 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -9833,7 +9853,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(10197098993763395417u64));
 }
 };
 _input.close_peek_context()?;
@@ -9847,7 +9867,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(6223008304848233301u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9860,7 +9880,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(14550754927305275517u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9868,7 +9888,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(15631554783732883240u64));
 }
 })
 }
@@ -9885,7 +9905,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9927,7 +9950,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -9991,7 +10015,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 }
 };
 _input.close_peek_context()?;
@@ -10005,7 +10029,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
 (char::from_u32(0u32)).unwrap()
@@ -10016,7 +10040,7 @@ return Err(ParseError::ExcludedBranch(179268011689651936u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(10940017698627680568u64));
 }
 })
 }
@@ -10065,7 +10089,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(9220862562374507822u64));
 }
 };
 _input.close_peek_context()?;
@@ -10079,7 +10103,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 };
 byte as u32
@@ -10093,7 +10117,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(9665974566873665536u64));
 }
 };
 raw & 31u8
@@ -10130,7 +10154,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(8376883036401934317u64));
 }
 };
 _input.close_peek_context()?;
@@ -10145,7 +10169,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(374064178837027275u64));
 }
 };
 raw & 15u8
@@ -10156,7 +10180,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(658824046370133753u64));
 }
 };
 raw & 63u8
@@ -10172,7 +10196,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(3725673472712527969u64));
 }
 };
 raw & 15u8
@@ -10189,7 +10213,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(12728843535195535635u64));
 }
 };
 raw & 15u8
@@ -10200,7 +10224,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(15741082764016749161u64));
 }
 };
 raw & 63u8
@@ -10216,7 +10240,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(9967703502401950260u64));
 }
 };
 raw & 15u8
@@ -10227,7 +10251,7 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(9069368457806005425u64));
 }
 }
 };
@@ -10256,7 +10280,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(3852079030227774582u64));
 }
 };
 _input.close_peek_context()?;
@@ -10271,7 +10295,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(3179861450314844647u64));
 }
 };
 raw & 7u8
@@ -10282,7 +10306,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(15080388466336998873u64));
 }
 };
 raw & 63u8
@@ -10299,7 +10323,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(6070260202873699214u64));
 }
 };
 raw & 7u8
@@ -10317,7 +10341,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(8986322043713516692u64));
 }
 };
 raw & 7u8
@@ -10328,7 +10352,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(11786939113783016634u64));
 }
 };
 raw & 63u8
@@ -10339,7 +10363,7 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(5176232487486782188u64));
 }
 }
 };
@@ -10350,7 +10374,7 @@ let (x3, x2, x1, x0) = tuple_var;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 }
 };
@@ -10364,7 +10388,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(2605623462625042002u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10377,9 +10401,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10404,9 +10432,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10493,7 +10525,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11936787736236307191u64));
+return Err(ParseError::ExcludedBranch(386759067598651566u64));
 }
 };
 _input.close_peek_context()?;
@@ -10508,7 +10540,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(18164850183020044607u64));
 }
 };
 _input.read_byte()?
@@ -10523,7 +10555,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10539,7 +10571,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(10416240583538343445u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10555,7 +10587,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(1457499133218925748u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10571,7 +10603,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(14215639860155940137u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10587,7 +10619,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(5584166819955891466u64));
 }
 };
 let raw = {
@@ -10606,7 +10638,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(11133239979815295357u64));
 }
 };
 let raw = {
@@ -10625,7 +10657,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(240888096670347429u64));
+return Err(ParseError::ExcludedBranch(1275286460638129217u64));
 }
 };
 let raw = {
@@ -10638,7 +10670,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(13527164188224560282u64));
 }
 })
 }
@@ -10657,7 +10689,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3167775832820164678u64));
+return Err(ParseError::FalsifiedWhere(240888096670347429u64));
 }
 };
 let num_tables = {
@@ -10702,7 +10734,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7215050775822222282u64));
+return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
 }
 };
 let major_version = {
@@ -10831,7 +10863,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10846,7 +10878,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12652804269632162478u64));
+return Err(ParseError::ExcludedBranch(3167775832820164678u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10861,7 +10893,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18134882366868794706u64));
+return Err(ParseError::ExcludedBranch(7215050775822222282u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10876,7 +10908,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10891,7 +10923,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10906,7 +10938,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10922,7 +10954,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10937,7 +10969,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4762692522317026931u64));
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -10951,9 +10983,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -10992,9 +11028,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11065,9 +11105,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11311,7 +11355,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9630069758457681762u64));
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11423,7 +11467,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
 inner
 }
 };
@@ -11439,7 +11483,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
 inner
 }
 };
@@ -11460,7 +11504,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14677505873656710393u64));
+return Err(ParseError::ExcludedBranch(9630069758457681762u64));
 }
 };
 let arg1 = {
@@ -11468,7 +11512,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10102114574336663273u64));
+return Err(ParseError::ExcludedBranch(908377722732597655u64));
 }
 };
 let arg2 = {
@@ -11476,7 +11520,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4386762582485017400u64));
+return Err(ParseError::ExcludedBranch(3203034260088513018u64));
 }
 };
 let arg3 = {
@@ -11484,7 +11528,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8893850231119365992u64));
+return Err(ParseError::ExcludedBranch(14677505873656710393u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11505,7 +11549,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
+return Err(ParseError::FalsifiedWhere(10102114574336663273u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11620,7 +11664,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11052099086134529863u64));
+return Err(ParseError::FalsifiedWhere(4386762582485017400u64));
 }
 };
 let glyph_data_format = {
@@ -11635,7 +11679,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
 inner
 }
 };
@@ -11656,7 +11700,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
 inner
 }
 };
@@ -11672,7 +11716,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
 inner
 }
 };
@@ -11759,7 +11803,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
 inner
 }
 };
@@ -11775,7 +11819,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -11791,7 +11835,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11807,7 +11851,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11825,7 +11869,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -12304,7 +12348,7 @@ opentype_loca_table_offsets::Offsets32(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8987822076696059625u64));
+return Err(ParseError::ExcludedBranch(11328034188734904930u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12407,7 +12451,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -12423,7 +12467,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1977899765720151190u64));
+return Err(ParseError::FalsifiedWhere(15432825464810477099u64));
 }
 };
 let horiz_axis_offset = {
@@ -12471,7 +12515,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
 inner
 }
 };
@@ -12517,7 +12561,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(12890902517277365935u64));
+return Err(ParseError::FailToken(10078755145706786000u64));
 },
 
 2u16 => {
@@ -12600,7 +12644,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
 inner
 }
 };
@@ -12661,7 +12705,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12720,7 +12764,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
 inner
 }
 };
@@ -12736,7 +12780,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12752,7 +12796,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -12787,7 +12831,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12803,7 +12847,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12819,7 +12863,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
+return Err(ParseError::FalsifiedWhere(14009314771729697611u64));
 }
 };
 {
@@ -12834,7 +12878,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -12854,7 +12898,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12889,7 +12933,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
 inner
 }
 };
@@ -12905,7 +12949,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -12992,7 +13036,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -13008,7 +13052,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -13063,7 +13107,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -13079,7 +13123,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13095,7 +13139,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13111,7 +13155,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13154,7 +13198,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13178,7 +13222,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2154669163482751322u64));
+return Err(ParseError::FalsifiedWhere(7511456693437940214u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13198,7 +13242,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13233,7 +13277,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13249,7 +13293,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13302,7 +13346,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13318,7 +13362,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13405,7 +13449,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13421,7 +13465,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13437,7 +13481,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13453,7 +13497,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13471,7 +13515,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13538,7 +13582,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13579,7 +13623,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13599,7 +13643,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
+return Err(ParseError::FalsifiedWhere(14454034443522724586u64));
 }
 };
 let records = {
@@ -13635,7 +13679,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
 inner
 }
 };
@@ -13655,7 +13699,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
+return Err(ParseError::FalsifiedWhere(17869550927478639832u64));
 }
 };
 let ratio_range = {
@@ -13779,7 +13823,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14751251992141172493u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
 inner
 }
 };
@@ -13795,7 +13839,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13870,7 +13914,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8997881400116719018u64));
+return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
 }
 };
 let data = match format {
@@ -14034,7 +14078,7 @@ opentype_stat_axis_value_table_data::Format4(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(14751251992141172493u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14060,7 +14104,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -14092,7 +14136,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6949960292533894002u64));
+return Err(ParseError::FailToken(8997881400116719018u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14246,7 +14290,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1347174710810305478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13614619987783239962u64));
 inner
 }
 };
@@ -14283,7 +14327,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14357,7 +14401,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -14399,7 +14446,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -14422,12 +14470,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -14488,7 +14540,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8390724546948265409u64));
+return Err(ParseError::ExcludedBranch(6949960292533894002u64));
 }
 };
 let ix1 = {
@@ -14496,7 +14548,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6347242493551283856u64));
+return Err(ParseError::ExcludedBranch(1347174710810305478u64));
 }
 };
 vec![ix0, ix1]
@@ -14526,9 +14578,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -14566,7 +14622,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(8958899994948144829u64));
 }
 };
 _input.close_peek_context()?;
@@ -14579,7 +14635,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 accum.push(next_elem)
@@ -14594,7 +14650,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17324980155911269375u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14619,7 +14675,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 _input.close_peek_context()?;
@@ -14632,7 +14688,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 accum.push(next_elem)
@@ -14647,7 +14703,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 chars.clone()
@@ -14754,7 +14810,7 @@ deflate_block_data::dynamic_huffman(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -14775,12 +14831,12 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 let inner = nlen;
 let is_valid = {
 let n = inner;
-n == (try_sub!(65535u16, len, 3426398976290336157u64))
+n == (try_sub!(65535u16, len, 2444204717155307095u64))
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11250208753083412758u64));
+return Err(ParseError::FalsifiedWhere(1278184758971178969u64));
 }
 };
 let bytes = {
@@ -15390,7 +15446,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 },
 
 286u16..=287u16 => {
-return Err(ParseError::FailToken(17349123374714965876u64));
+return Err(ParseError::FailToken(4480225125687487743u64));
 },
 
 _ => {
@@ -15806,7 +15862,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 },
 
 286u16..=287u16 => {
-return Err(ParseError::FailToken(2153064741293804702u64));
+return Err(ParseError::FailToken(12879845237981630531u64));
 },
 
 _ => {
@@ -15902,7 +15958,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3249387167439447765u64));
+return Err(ParseError::ExcludedBranch(11250208753083412758u64));
 }
 }))
 },
@@ -16054,11 +16110,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(7744051144774795087u64));
+return Err(ParseError::FailToken(17349123374714965876u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8700288293163706751u64));
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 })
 }
@@ -16136,7 +16192,7 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16771529512960957239u64));
+return Err(ParseError::ExcludedBranch(1588651938759015246u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16189,7 +16245,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13846498452079501214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
 inner
 }
 };
@@ -16255,7 +16311,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
 }
 };
 let variation_regions = {
@@ -16428,7 +16484,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9819345728844658158u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
 inner
 }
 };
@@ -16450,7 +16506,7 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(16771529512960957239u64));
 }
 };
 let map_data = {
@@ -16512,7 +16568,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14954891776835932150u64));
+return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
 }
 };
 let tuple_variation_headers = {
@@ -16705,7 +16761,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13404710972790825894u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 };
 _input.close_peek_context()?;
@@ -16719,7 +16775,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11046436797737227751u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 (0u16, [].to_vec())
@@ -16731,7 +16787,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14984809111992638634u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16743,7 +16799,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9342187932533045817u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16751,7 +16807,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2688427941405105545u64));
+return Err(ParseError::ExcludedBranch(11046436797737227751u64));
 }
 })
 }
@@ -16881,7 +16937,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
 inner
 }
 };
@@ -17030,7 +17086,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
 inner
 }
 };
@@ -17046,7 +17102,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
 inner
 }
 };
@@ -17102,7 +17158,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1179945139148562335u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17118,7 +17174,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3270685119814653163u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
 inner
 }
 };
@@ -17260,7 +17316,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let table_scope = table_view;
@@ -17276,7 +17332,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
 }
 };
 let extension_offset = {
@@ -17329,11 +17385,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(5653230390980289841u64));
+return Err(ParseError::FailToken(1179945139148562335u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(9179996462972575343u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 })
 }
@@ -17357,7 +17413,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17404,7 +17460,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6495907546257147840u64));
+return Err(ParseError::ExcludedBranch(15898809900392744567u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17426,7 +17482,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
+return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
 }
 };
 let coverage = {
@@ -17475,7 +17531,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
+return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
 }
 };
 let coverage = {
@@ -17533,7 +17589,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16594239496794104967u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17564,7 +17620,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(6495907546257147840u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17585,7 +17641,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let table_scope = table_view;
@@ -17716,7 +17772,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17964,7 +18020,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1369437808023015077u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18206,7 +18262,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
 }
 };
 let seq_lookup_count = {
@@ -18444,7 +18500,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12187643960709778443u64));
 inner
 }
 };
@@ -18593,7 +18649,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
+return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
 }
 };
 let table_scope = table_view;
@@ -18609,7 +18665,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let extension_offset = {
@@ -18667,11 +18723,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(3595277668730903043u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(5446531490235636452u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 }
 })
 }
@@ -18695,7 +18751,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12530712830475607577u64));
+return Err(ParseError::FailToken(4770836931378141069u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18720,7 +18776,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1386817607731947864u64));
+return Err(ParseError::FailToken(9976720501248819272u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18741,7 +18797,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 }
 };
 let table_scope = table_view;
@@ -18783,7 +18839,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3923207427992258326u64));
+return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
 }
 };
 let table_scope = table_view;
@@ -18842,7 +18898,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 }
 };
 let mark_coverage = {
@@ -18899,7 +18955,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15995337135637623051u64));
+return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
 }
 };
 let table_scope = table_view;
@@ -19057,7 +19113,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4063460887563813446u64));
+return Err(ParseError::FailToken(4795509455376621436u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19205,7 +19261,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10243418979491025991u64));
+return Err(ParseError::ExcludedBranch(3923207427992258326u64));
 }
 };
 let arg1 = {
@@ -19213,7 +19269,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6726475111737435495u64));
+return Err(ParseError::ExcludedBranch(5174369311102857850u64));
 }
 };
 (arg0, arg1)
@@ -20151,7 +20207,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -20242,7 +20298,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14926982082392674388u64));
+return Err(ParseError::FailToken(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20491,7 +20547,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13281230340934385869u64));
+return Err(ParseError::FailToken(10243418979491025991u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20555,7 +20611,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(2229770659268432585u64));
+return Err(ParseError::FailToken(6726475111737435495u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21204,7 +21260,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8862619478422395719u64));
+return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
 }
 };
 let max_twilight_points = {
@@ -21247,7 +21303,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
+return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21343,7 +21399,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13266006752343456203u64));
+return Err(ParseError::ExcludedBranch(13281230340934385869u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21366,7 +21422,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21391,7 +21447,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21434,7 +21490,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -21449,7 +21505,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2508979988921372290u64));
+return Err(ParseError::FalsifiedWhere(13266006752343456203u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21470,7 +21526,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -21486,7 +21542,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11815677057767015929u64));
+return Err(ParseError::FalsifiedWhere(16152968816646114000u64));
 }
 };
 let language = {
@@ -21565,9 +21621,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21607,7 +21667,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21632,7 +21692,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21686,7 +21746,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21728,9 +21788,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21767,7 +21831,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21818,7 +21882,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21834,7 +21898,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21859,7 +21923,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21875,7 +21939,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21930,7 +21994,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21946,7 +22010,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21971,7 +22035,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -21987,7 +22051,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -22041,7 +22105,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -22057,7 +22121,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -22082,7 +22146,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -22098,7 +22162,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22145,7 +22209,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22161,7 +22225,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22186,7 +22250,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22202,7 +22266,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14339975513692068616u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22249,7 +22313,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16299205781335471965u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22274,7 +22338,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1479153625485860551u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -22441,7 +22505,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12668500753644823654u64));
+return Err(ParseError::FalsifiedWhere(16096650375442290768u64));
 })
 }
 
@@ -22459,7 +22523,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 })
 }
@@ -22478,7 +22542,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 })
 }
@@ -22497,7 +22561,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 })
 }
@@ -22627,7 +22691,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7230273548678969972u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 let arg1 = {
@@ -22635,7 +22699,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 let arg2 = {
@@ -22643,7 +22707,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1969670610881234889u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 let arg3 = {
@@ -22651,7 +22715,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9038350950373664822u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22666,12 +22730,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22683,7 +22751,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 };
 accum.push(next_elem)
@@ -22706,7 +22774,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
+return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
 })
 }
 
@@ -22725,7 +22793,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14681668243282477517u64));
+return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
 })
 }
 
@@ -22755,7 +22823,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6209434968043366837u64));
+return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
 })
 }
 
@@ -22769,7 +22837,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16474038368490899078u64));
+return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
 })
 }
 
@@ -22783,7 +22851,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12217686503432178884u64));
+return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
 })
 }
 
@@ -22844,7 +22912,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
 _input.close_peek_context()?;
@@ -22857,7 +22925,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 accum.push(next_elem)
@@ -22873,12 +22941,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22890,7 +22962,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
 accum.push(next_elem)
@@ -22925,7 +22997,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
 _input.close_peek_context()?;
@@ -22938,7 +23010,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 accum.push(next_elem)
@@ -22954,12 +23026,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22971,7 +23047,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14485842416732585139u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 accum.push(next_elem)
@@ -23006,7 +23082,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 _input.close_peek_context()?;
@@ -23019,7 +23095,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5152282179373241998u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 accum.push(next_elem)
@@ -23035,12 +23111,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23052,7 +23132,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13780055874544357936u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
 accum.push(next_elem)
@@ -23075,10 +23155,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 5152282179373241998u64)
 };
 let _o9 = {
 let bit = {
@@ -23086,10 +23166,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 7933266403838225878u64)
 };
 let _o8 = {
 let bit = {
@@ -23097,10 +23177,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(12100308281236296642u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 5025197102194587315u64)
 };
 let _o7 = {
 let bit = {
@@ -23108,10 +23188,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(3810055094392728880u64));
 }
 };
-try_sub!(bit as u8, 48u8, 17176374570344757031u64)
+try_sub!(bit as u8, 48u8, 5599331855309773603u64)
 };
 let _o6 = {
 let bit = {
@@ -23119,10 +23199,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(16437491640759399344u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3653195934333285574u64)
+try_sub!(bit as u8, 48u8, 6215067399528787845u64)
 };
 let _o5 = {
 let bit = {
@@ -23130,10 +23210,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(17176374570344757031u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8898504689444561451u64)
+try_sub!(bit as u8, 48u8, 7979287392867129207u64)
 };
 let _o4 = {
 let bit = {
@@ -23141,10 +23221,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
-try_sub!(bit as u8, 48u8, 10046433636842398056u64)
+try_sub!(bit as u8, 48u8, 10721249873135158334u64)
 };
 let _o3 = {
 let bit = {
@@ -23152,10 +23232,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5986772336072340665u64)
+try_sub!(bit as u8, 48u8, 3950014938140253048u64)
 };
 let _o2 = {
 let bit = {
@@ -23163,10 +23243,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2908689796368760670u64)
+try_sub!(bit as u8, 48u8, 757122060916971772u64)
 };
 let _o1 = {
 let bit = {
@@ -23174,10 +23254,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
-try_sub!(bit as u8, 48u8, 4598583460226006268u64)
+try_sub!(bit as u8, 48u8, 10645729856418057640u64)
 };
 let _o0 = {
 let bit = {
@@ -23185,10 +23265,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
-try_sub!(bit as u8, 48u8, 15680765559661576738u64)
+try_sub!(bit as u8, 48u8, 13311790038092155306u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23216,7 +23296,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 _input.close_peek_context()?;
@@ -23229,7 +23309,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23245,12 +23325,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23262,7 +23346,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23297,7 +23381,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 _input.close_peek_context()?;
@@ -23310,7 +23394,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23326,12 +23410,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23343,7 +23431,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23372,7 +23460,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 let arg1 = {
@@ -23380,7 +23468,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg2 = {
@@ -23388,7 +23476,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 let arg3 = {
@@ -23396,7 +23484,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let arg4 = {
@@ -23404,7 +23492,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 let arg5 = {
@@ -23412,7 +23500,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23423,7 +23511,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 let arg1 = {
@@ -23431,7 +23519,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 (arg0, arg1)
@@ -23470,7 +23558,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 _input.close_peek_context()?;
@@ -23483,7 +23571,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 accum.push(next_elem)
@@ -23499,12 +23587,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23516,7 +23608,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 accum.push(next_elem)
@@ -23551,7 +23643,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 _input.close_peek_context()?;
@@ -23564,7 +23656,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 accum.push(next_elem)
@@ -23580,12 +23672,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23597,7 +23693,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23627,7 +23723,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23648,8 +23744,11 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
-0u8 => {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
+0u8 => {
 0
 },
 
@@ -23658,7 +23757,8 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -23677,7 +23777,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 accum.push(next_elem)
@@ -23693,12 +23793,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23710,7 +23814,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23729,7 +23833,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 })
 }
 
@@ -23741,7 +23845,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 byte if (byte != 0) => {
 0
 },
@@ -23751,7 +23858,8 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -23764,7 +23872,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 accum.push(next_elem)
@@ -23779,12 +23887,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23796,7 +23908,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 accum.push(next_elem)
@@ -23827,7 +23939,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 _input.close_peek_context()?;
@@ -23840,7 +23952,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 accum.push(next_elem)
@@ -23855,12 +23967,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23878,7 +23994,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem)
@@ -23907,7 +24023,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 _input.close_peek_context()?;
@@ -23921,7 +24037,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 let arg1 = {
@@ -23929,7 +24045,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23941,7 +24057,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg1 = {
@@ -23949,14 +24065,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 })
 }
@@ -24015,9 +24131,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24075,9 +24195,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24102,9 +24226,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24141,9 +24269,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24165,7 +24297,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 })
 } else {
 None
@@ -24187,7 +24319,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24219,7 +24351,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2466404913032252300u64));
+return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24308,9 +24440,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24351,7 +24487,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
+return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24385,7 +24521,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5869833854865239916u64));
+return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
 }
 };
 let flags = {
@@ -24428,7 +24564,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13372240079418200167u64));
+return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24446,7 +24582,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 let arg1 = {
@@ -24454,7 +24590,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 let arg2 = {
@@ -24462,7 +24598,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 let arg3 = {
@@ -24470,7 +24606,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24483,7 +24619,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 let arg1 = {
@@ -24491,7 +24627,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg2 = {
@@ -24499,7 +24635,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let arg3 = {
@@ -24507,7 +24643,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24519,9 +24655,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24549,7 +24689,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg1 = {
@@ -24557,7 +24697,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg2 = {
@@ -24565,7 +24705,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 let arg3 = {
@@ -24573,7 +24713,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24597,7 +24737,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 let arg1 = {
@@ -24605,7 +24745,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg2 = {
@@ -24613,7 +24753,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let arg3 = {
@@ -24621,7 +24761,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24650,7 +24790,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 accum.push(next_elem)
@@ -24664,9 +24804,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24732,9 +24876,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24755,7 +24903,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 })
 }
@@ -24815,7 +24963,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 val.clone()
@@ -24825,7 +24973,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24884,7 +25032,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 })
 }
@@ -24900,7 +25048,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15047091743774256727u64));
+return Err(ParseError::FalsifiedWhere(5041932778480497827u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24915,7 +25063,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 val.clone()
@@ -24925,7 +25073,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 let compression_method = {
@@ -24933,7 +25081,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 let language_tag = {
@@ -24953,7 +25101,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 _input.close_peek_context()?;
@@ -24966,7 +25114,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 accum.push(next_elem)
@@ -24981,7 +25129,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 chars.clone()
@@ -24993,7 +25141,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 val.clone()
@@ -25031,9 +25179,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25080,7 +25232,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 val.clone()
@@ -25090,9 +25242,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25118,7 +25274,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 val.clone()
@@ -25128,7 +25284,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 let compressed_text = {
@@ -25212,7 +25368,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 })
 }
@@ -25224,9 +25380,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25269,7 +25429,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 val.clone()
@@ -25279,7 +25439,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 let palette = match sample_depth {
@@ -25289,9 +25449,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25324,9 +25488,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25366,7 +25534,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25870,6 +26038,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
@@ -26305,64 +26509,28 @@ return Err(ParseError::ExcludedBranch(4317621489266312319u64));
 _ => {
 return Err(ParseError::ExcludedBranch(868434092978367357u64));
 }
+};
+_input.close_peek_context()?;
+ret
 }
-},
-
-_ => {
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+break
+} else {
+let next_elem = {
+let b = _input.read_byte()?;
+if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
+b
+} else {
 return Err(ParseError::ExcludedBranch(496554245154466536u64));
 }
+};
+accum.push(next_elem)
+}
+};
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
+PResult::Ok(accum)
 }
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
-break
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
-b
-} else {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
-}
-};
-accum.push(next_elem)
-}
-};
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
-PResult::Ok(accum)
-}
 
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
@@ -26848,6 +27016,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13980028702310773940u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(4312000683241916062u64));
 }
@@ -27283,42 +27487,6 @@ return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 _ => {
 return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9286045119570450224u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -27332,7 +27500,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 }
 };
 accum.push(next_elem)
@@ -27358,7 +27526,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4360542291358407189u64));
+return Err(ParseError::FalsifiedWhere(6019636780841875619u64));
 }
 };
 let flags = {
@@ -27871,6 +28039,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(11728165168471348185u64));
 }
@@ -28306,42 +28510,6 @@ return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -28355,7 +28523,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
 };
 accum.push(next_elem)
@@ -28849,6 +29017,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
@@ -29284,63 +29488,27 @@ return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 _ => {
 return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 }
+};
+_input.close_peek_context()?;
+ret
 }
-},
-
-_ => {
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+break
+} else {
+let next_elem = {
+let b = _input.read_byte()?;
+if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
+b
+} else {
 return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
+};
+accum.push(next_elem)
 }
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
-break
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
-b
-} else {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
-}
-};
-accum.push(next_elem)
-}
-};
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
-PResult::Ok(accum)
+};
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
+PResult::Ok(accum)
 }
 
 /// d#307
@@ -29392,7 +29560,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
 }
 };
 _input.close_peek_context()?;
@@ -29425,7 +29593,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1105171745447487568u64));
+return Err(ParseError::FalsifiedWhere(14114750189009003637u64));
 }
 };
 let flags = {
@@ -29461,7 +29629,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 byte if ((ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(byte)) => {
 0
 },
@@ -29499,7 +29670,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -29528,7 +29700,10 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -29570,7 +29745,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -30071,6 +30247,54 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3933597635930613605u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(552953513858366451u64));
 }
@@ -30494,54 +30718,6 @@ return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7931358881575056193u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11515797873012483658u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8584109755265226714u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -30555,7 +30731,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8076978189295213982u64));
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 }
 };
 accum.push(next_elem)
@@ -30581,7 +30757,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11570281271401624317u64));
+return Err(ParseError::FalsifiedWhere(15786118691017431738u64));
 }
 };
 let flags = {
@@ -30617,7 +30793,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14687724984806605719u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 };
 let arg1 = {
@@ -30625,7 +30801,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1378805635639824117u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 };
 let arg2 = {
@@ -30633,7 +30809,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8385173961957899741u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 let arg3 = {
@@ -30641,7 +30817,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30682,7 +30858,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13752480002470540422u64)
+try_sub!(x, 16u64, 8584109755265226714u64)
 },
 
 _ => {
@@ -30716,9 +30892,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30741,9 +30921,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30766,9 +30950,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30808,9 +30996,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30844,7 +31036,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 11570281271401624317u64)
 },
 
 _ => {
@@ -30878,7 +31070,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 1378805635639824117u64)
 },
 
 _ => {
@@ -30900,9 +31092,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30925,9 +31121,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30950,9 +31150,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31027,7 +31231,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2662265345698212949u64));
+return Err(ParseError::ExcludedBranch(8385173961957899741u64));
 }
 };
 let rate = {
@@ -31099,7 +31303,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8599210436172030522u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -31121,9 +31325,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31146,9 +31354,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31171,9 +31383,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31213,7 +31429,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15403934492100194569u64)
+try_sub!(x, 16u64, 17107648091243309207u64)
 },
 
 _ => {
@@ -31234,9 +31450,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31259,9 +31479,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31344,7 +31568,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12041148194529633639u64));
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 };
 let reserved2 = {
@@ -31413,7 +31637,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17888323854924040413u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -31435,9 +31659,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31477,7 +31705,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11074951631636946051u64)
+try_sub!(x, 16u64, 3344648651879382526u64)
 },
 
 _ => {
@@ -31513,9 +31741,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31538,9 +31770,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31597,7 +31833,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 };
 _input.close_peek_context()?;
@@ -31610,7 +31846,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 };
 accum.push(next_elem)
@@ -31625,7 +31861,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(15403934492100194569u64));
 }
 };
 chars.clone()
@@ -31685,7 +31921,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 let language = {
@@ -31716,7 +31952,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15433822888775103886u64)
+try_sub!(x, 16u64, 17888323854924040413u64)
 },
 
 _ => {
@@ -31743,9 +31979,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31768,9 +32008,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31793,9 +32037,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31872,7 +32120,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17073037115051226650u64)
+try_sub!(x, 16u64, 11074951631636946051u64)
 },
 
 _ => {
@@ -31894,9 +32142,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31936,7 +32188,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 10599514554463239458u64)
+try_sub!(x, 16u64, 13675295148592556047u64)
 },
 
 _ => {
@@ -32003,9 +32255,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32341,7 +32597,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12017601628070515145u64)
+try_sub!(x, 16u64, 9110520999974091875u64)
 },
 
 _ => {
@@ -32356,9 +32612,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32391,9 +32651,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32427,7 +32691,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 10708294527730390829u64)
+try_sub!(x, 16u64, 15433822888775103886u64)
 },
 
 _ => {
@@ -32442,9 +32706,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32509,9 +32777,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32559,9 +32831,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32584,9 +32860,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32609,9 +32889,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32671,7 +32955,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 _input.close_peek_context()?;
@@ -32684,7 +32968,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 accum.push(next_elem)
@@ -32699,7 +32983,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 chars.clone()
@@ -32771,9 +33055,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32796,9 +33084,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32816,7 +33108,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32901,7 +33193,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 let extent_count = {
@@ -32942,7 +33234,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16679512278832019969u64)
+try_sub!(x, 16u64, 1872233699568519226u64)
 },
 
 _ => {
@@ -32959,9 +33251,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32984,9 +33280,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33026,7 +33326,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9892894478446917378u64)
+try_sub!(x, 16u64, 7432469293302627017u64)
 },
 
 _ => {
@@ -33048,9 +33348,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33088,9 +33392,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33128,7 +33436,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33150,7 +33458,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 let extent_length = match length_size {
@@ -33172,7 +33480,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33195,7 +33503,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12552648416444111338u64)
+try_sub!(x, 16u64, 9331389203258424019u64)
 },
 
 _ => {
@@ -33250,7 +33558,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 10776065777346510440u64)
+try_sub!(x, 16u64, 15311158871930328757u64)
 },
 
 _ => {
@@ -33305,7 +33613,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1550574349011231204u64)
+try_sub!(x, 16u64, 3585635225240718191u64)
 },
 
 _ => {
@@ -33327,9 +33635,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33402,7 +33714,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 };
 _input.close_peek_context()?;
@@ -33415,7 +33727,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 };
 accum.push(next_elem)
@@ -33430,7 +33742,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 chars.clone()
@@ -33452,7 +33764,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 _input.close_peek_context()?;
@@ -33465,7 +33777,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 accum.push(next_elem)
@@ -33480,7 +33792,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 chars.clone()
@@ -33502,7 +33814,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 _input.close_peek_context()?;
@@ -33515,7 +33827,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 accum.push(next_elem)
@@ -33530,7 +33842,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 chars.clone()
@@ -33576,7 +33888,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 _input.close_peek_context()?;
@@ -33589,7 +33901,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 accum.push(next_elem)
@@ -33604,7 +33916,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 chars.clone()
@@ -33651,7 +33963,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 _input.close_peek_context()?;
@@ -33664,7 +33976,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 accum.push(next_elem)
@@ -33679,7 +33991,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 chars.clone()
@@ -33706,7 +34018,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 _input.close_peek_context()?;
@@ -33719,7 +34031,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 accum.push(next_elem)
@@ -33734,7 +34046,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 chars.clone()
@@ -33749,7 +34061,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 let marker = {
@@ -33757,7 +34069,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33912,11 +34224,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34037,11 +34349,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34057,7 +34369,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 }
 };
@@ -34163,11 +34475,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34192,7 +34504,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 let marker = {
@@ -34200,7 +34512,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34223,11 +34535,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34245,7 +34557,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 })
 }
@@ -34343,11 +34655,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34460,7 +34772,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 })
 }
@@ -34526,11 +34838,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34603,7 +34915,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 })
 }
@@ -34708,11 +35020,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34740,7 +35052,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 let marker = {
@@ -34748,7 +35060,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 };
 jpeg_soi { marker }
@@ -34867,11 +35179,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34899,7 +35211,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 let marker = {
@@ -34907,7 +35219,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 jpeg_soi { marker }
@@ -35070,13 +35382,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 _input.close_peek_context()?;
@@ -35181,13 +35493,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 _input.close_peek_context()?;
@@ -35241,7 +35553,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 })
 }
@@ -35261,7 +35573,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 _input.close_peek_context()?;
@@ -35274,7 +35586,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 },
 
@@ -35285,7 +35597,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 let arg1 = {
@@ -35293,7 +35605,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 (arg0, arg1)
@@ -35302,7 +35614,7 @@ return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 })
 }
@@ -35314,7 +35626,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 let marker = {
@@ -35322,7 +35634,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35335,7 +35647,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 let marker = {
@@ -35343,7 +35655,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35356,7 +35668,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 let marker = {
@@ -35364,7 +35676,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35377,7 +35689,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 let marker = {
@@ -35385,7 +35697,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35398,7 +35710,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 let marker = {
@@ -35406,7 +35718,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35419,7 +35731,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 let marker = {
@@ -35427,7 +35739,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35440,7 +35752,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 let marker = {
@@ -35448,7 +35760,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35461,7 +35773,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 let marker = {
@@ -35469,7 +35781,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35486,7 +35798,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
 }
 };
 let image_components = {
@@ -35506,7 +35818,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17753230141940491005u64));
+return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
 }
 };
 let end_spectral_selection = {
@@ -35518,7 +35830,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6110942357212830202u64));
+return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35555,7 +35867,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6596410053543851077u64));
+return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
 })
 }
 
@@ -35573,7 +35885,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16339654162669176472u64));
+return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35727,13 +36039,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 _input.close_peek_context()?;
@@ -35797,7 +36109,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 let marker = {
@@ -35805,7 +36117,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 jpeg_soi { marker }
@@ -35832,7 +36144,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 let marker = {
@@ -35840,7 +36152,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 jpeg_soi { marker }
@@ -35867,7 +36179,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 let marker = {
@@ -35875,7 +36187,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 jpeg_soi { marker }
@@ -35902,7 +36214,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 let marker = {
@@ -35910,7 +36222,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 jpeg_soi { marker }
@@ -35937,7 +36249,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -35945,7 +36257,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -35972,7 +36284,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -35980,7 +36292,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -36007,7 +36319,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -36015,7 +36327,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -36042,7 +36354,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -36050,7 +36362,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -36077,7 +36389,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -36085,7 +36397,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -36112,7 +36424,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -36120,7 +36432,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -36147,7 +36459,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36155,7 +36467,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36182,7 +36494,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36190,7 +36502,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -36217,7 +36529,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -36225,7 +36537,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -36255,7 +36567,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(268478239438800266u64));
+return Err(ParseError::FalsifiedWhere(8284996377131534070u64));
 }
 };
 let num_lines = {
@@ -36274,7 +36586,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6301432137385173939u64));
+return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
 }
 };
 let num_image_components = {
@@ -36286,7 +36598,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17762152702085771435u64));
+return Err(ParseError::FalsifiedWhere(108256050843388088u64));
 }
 };
 let image_components = {
@@ -36318,7 +36630,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6803443871185192093u64));
+return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36332,7 +36644,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 let marker = {
@@ -36340,7 +36652,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 jpeg_soi { marker }
@@ -36357,9 +36669,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36394,7 +36710,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 let marker = {
@@ -36402,7 +36718,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 jpeg_soi { marker }
@@ -36429,7 +36745,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -36437,7 +36753,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -36464,7 +36780,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 let marker = {
@@ -36472,7 +36788,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 jpeg_soi { marker }
@@ -36499,7 +36815,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -36507,7 +36823,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -36534,7 +36850,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let marker = {
@@ -36542,7 +36858,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 jpeg_soi { marker }
@@ -36569,7 +36885,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 let marker = {
@@ -36577,7 +36893,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 jpeg_soi { marker }
@@ -36594,9 +36910,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36624,7 +36944,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 let marker = {
@@ -36632,7 +36952,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 jpeg_soi { marker }
@@ -36649,9 +36969,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36679,7 +37003,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 let marker = {
@@ -36687,7 +37011,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 jpeg_soi { marker }
@@ -36704,9 +37028,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36734,7 +37062,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 let marker = {
@@ -36742,7 +37070,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 jpeg_soi { marker }
@@ -36759,9 +37087,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36789,7 +37121,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 let marker = {
@@ -36797,7 +37129,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 jpeg_soi { marker }
@@ -36814,9 +37146,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36844,7 +37180,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 let marker = {
@@ -36852,7 +37188,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 jpeg_soi { marker }
@@ -36869,9 +37205,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36899,7 +37239,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 let marker = {
@@ -36907,7 +37247,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 jpeg_soi { marker }
@@ -36924,9 +37264,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36954,7 +37298,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 let marker = {
@@ -36962,7 +37306,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 jpeg_soi { marker }
@@ -36979,9 +37323,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37009,7 +37357,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 let marker = {
@@ -37017,7 +37365,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 jpeg_soi { marker }
@@ -37034,9 +37382,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37064,7 +37416,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 let marker = {
@@ -37072,7 +37424,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 jpeg_soi { marker }
@@ -37089,9 +37441,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37119,7 +37475,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 let marker = {
@@ -37127,7 +37483,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 jpeg_soi { marker }
@@ -37144,9 +37500,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37174,7 +37534,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 let marker = {
@@ -37182,7 +37542,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 jpeg_soi { marker }
@@ -37199,9 +37559,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37229,7 +37593,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 let marker = {
@@ -37237,7 +37601,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 jpeg_soi { marker }
@@ -37254,9 +37618,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37284,7 +37652,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 let marker = {
@@ -37292,7 +37660,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 jpeg_soi { marker }
@@ -37309,9 +37677,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37339,7 +37711,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 let marker = {
@@ -37347,7 +37719,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 jpeg_soi { marker }
@@ -37364,9 +37736,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37405,7 +37781,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 _input.close_peek_context()?;
@@ -37418,7 +37794,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 accum.push(next_elem)
@@ -37433,7 +37809,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 chars.clone()
@@ -37461,9 +37837,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37489,7 +37869,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37503,9 +37883,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37541,7 +37925,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 _input.close_peek_context()?;
@@ -37554,7 +37938,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 accum.push(next_elem)
@@ -37569,7 +37953,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 chars.clone()
@@ -37592,9 +37976,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37626,7 +38014,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11416999240256111317u64));
+return Err(ParseError::FalsifiedWhere(9066809807580136020u64));
 }
 };
 let density_x = {
@@ -37641,7 +38029,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13319962755558045565u64));
+return Err(ParseError::FalsifiedWhere(12347909352078849049u64));
 }
 };
 let density_y = {
@@ -37656,7 +38044,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17426992236827678217u64));
+return Err(ParseError::FalsifiedWhere(10900015085754267678u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37718,7 +38106,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1236150641026759388u64));
+return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
 })
 }
 
@@ -37773,7 +38161,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12386662728078486919u64));
+return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
 })
 }
 
@@ -37808,7 +38196,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 })
 }
@@ -37831,7 +38219,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 _input.close_peek_context()?;
@@ -37844,7 +38232,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 accum.push(next_elem)
@@ -37859,7 +38247,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37884,7 +38272,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 _input.close_peek_context()?;
@@ -37897,7 +38285,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 accum.push(next_elem)
@@ -37912,7 +38300,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 chars.clone()
@@ -37926,12 +38314,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -38002,7 +38394,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 _input.close_peek_context()?;
@@ -38033,7 +38425,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 accum.push(next_elem)
@@ -38045,12 +38437,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -38062,7 +38458,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 accum.push(next_elem)
@@ -38093,7 +38489,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 _input.close_peek_context()?;
@@ -38106,7 +38502,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 accum.push(next_elem)
@@ -38121,7 +38517,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38146,7 +38542,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 _input.close_peek_context()?;
@@ -38159,7 +38555,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 accum.push(next_elem)
@@ -38174,7 +38570,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 chars.clone()
@@ -38190,7 +38586,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 let arg1 = {
@@ -38198,7 +38594,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 let arg2 = {
@@ -38206,7 +38602,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38256,7 +38652,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 }
 },
@@ -38266,7 +38662,7 @@ return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 _input.close_peek_context()?;
@@ -38285,7 +38681,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 })
 }
@@ -38297,7 +38693,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38321,7 +38717,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 }
 },
@@ -38331,7 +38727,7 @@ return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 _input.close_peek_context()?;
@@ -38348,7 +38744,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 }
 };
@@ -38373,11 +38769,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38395,7 +38791,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 })
 }
@@ -38407,7 +38803,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 let label = {
@@ -38415,7 +38811,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 let block_size = {
@@ -38423,7 +38819,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 let identifier = {
@@ -38451,7 +38847,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 _input.close_peek_context()?;
@@ -38478,7 +38874,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 let label = {
@@ -38486,7 +38882,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let comment_data = {
@@ -38505,7 +38901,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 _input.close_peek_context()?;
@@ -38532,7 +38928,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 let data = {
@@ -38552,7 +38948,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 })
 }
 
@@ -38563,7 +38959,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let label = {
@@ -38571,7 +38967,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let block_size = {
@@ -38579,7 +38975,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38607,7 +39003,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 _input.close_peek_context()?;
@@ -38626,7 +39022,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 })
 }
@@ -38655,7 +39051,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 let label = {
@@ -38663,7 +39059,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 let block_size = {
@@ -38671,7 +39067,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 let text_grid_left_position = {
@@ -38710,7 +39106,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 _input.close_peek_context()?;
@@ -38737,7 +39133,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 let image_left_position = {
@@ -38787,7 +39183,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 _input.close_peek_context()?;
@@ -38919,55 +39315,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15666641356442195125u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8003682420837492218u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5694490278249537684u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17498679062468273557u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 };
 _input.close_peek_context()?;
@@ -38982,7 +39378,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 };
 accum.push(next_elem)
@@ -38996,7 +39392,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9104412661124805519u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 };
 (arg0, arg1)
@@ -39024,7 +39420,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39057,7 +39453,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
+return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
 }
 };
 let num_image_components = {
@@ -39069,7 +39465,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
+return Err(ParseError::FalsifiedWhere(8003682420837492218u64));
 }
 };
 let image_components = {
@@ -39092,7 +39488,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39114,7 +39510,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(401211890982280023u64));
+return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39128,7 +39524,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8351383702383589488u64));
+return Err(ParseError::ExcludedBranch(17498679062468273557u64));
 }
 };
 let marker = {
@@ -39136,7 +39532,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16926640000337048185u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 jpeg_soi { marker }
@@ -39153,9 +39549,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -39183,7 +39583,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14305107858950733127u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 };
 let marker = {
@@ -39191,7 +39591,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14247107068446105269u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 jpeg_soi { marker }
@@ -39229,7 +39629,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5774748803588796814u64));
+return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
 }
 };
 let num_image_components = {
@@ -39241,7 +39641,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12564492979960735543u64));
+return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
 }
 };
 let image_components = {
@@ -39263,7 +39663,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2458638837424585123u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 let marker = {
@@ -39271,7 +39671,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15528204713822084965u64));
+return Err(ParseError::ExcludedBranch(401211890982280023u64));
 }
 };
 jpeg_soi { marker }
@@ -39306,7 +39706,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5036225068787254506u64));
+return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index de8de78..b8725da 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -739,6 +739,29 @@ fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
 fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+        let descent = expand_descent(tree, ctxt);
+        match tree.accept {
+            // NOTE - a node that both accepts and branches is satisfied by the end of the input
+            Some(ix) if !tree.branches.is_empty() => {
+                let at_end = RustExpr::infix(
+                    ctxt.parser().call_method("remaining"),
+                    InfixOperator::Eq,
+                    RustExpr::num_lit(0usize),
+                );
+                GenBlock::simple_expr(RustExpr::Control(Box::new(RustControl::If(
+                    Box::new(at_end),
+                    vec![RustStmt::Return(
+                        ReturnKind::Implicit,
+                        RustExpr::num_lit(ix),
+                    )],
+                    Some(descent.flatten()),
+                ))))
+            }
+            _ => descent,
+        }
+    }
+
+    fn expand_descent(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -822,14 +845,23 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                     }
                 }
 
-                let value = Box::new(RustExpr::err(
-                    RustExpr::scoped(["ParseError"], "ExcludedBranch")
-                        .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
-                ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let match_body = if let Some(ix) = tree.accept {
+                    cases.push((
+                        MatchCaseLHS::Pattern(RustPattern::CatchAll(None)),
+                        vec![RustStmt::Return(
+                            ReturnKind::Implicit,
+                            RustExpr::num_lit(ix),
+                        )],
+                    ));
+                    RustMatchBody::Irrefutable(cases)
+                } else {
+                    let value = Box::new(RustExpr::err(
+                        RustExpr::scoped(["ParseError"], "ExcludedBranch")
+                            .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
+                    ));
+                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                };
+                let match_block = RustControl::Match(call, match_body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
-- 
2.43.0


From 00a0b99bddd2fbcc52e03e7084e6653bce716294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 34/59] verification hook (cfg verif_hooks): read-only access
 to static bounds

---
 src/codegen/mod.rs         |  3 +++
 src/codegen/verif_hooks.rs | 13 +++++++++++++
 src/lib.rs                 |  5 +++++
 src/verif_hooks.rs         | 19 +++++++++++++++++++
 4 files changed, 40 insertions(+)
 create mode 100644 src/codegen/verif_hooks.rs
 create mode 100644 src/verif_hooks.rs

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index b8725da..de5023a 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -60,6 +60,9 @@ use typed_format::{
 };
 
 mod util;
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 use util::{BTree, MapLike, StableMap};
 
 pub(crate) type Typed<T> = (T, GenType);
diff --git a/src/codegen/verif_hooks.rs b/src/codegen/verif_hooks.rs
new file mode 100644
index 0000000..7b6c9a8
--- /dev/null
+++ b/src/codegen/verif_hooks.rs
@@ -0,0 +1,13 @@
+//! Read-only access to static analyses for external verification; compiled only with
+//! `--cfg verif_hooks`.
+use super::{CodeGen, Elaborator, TypeChecker};
+use crate::bounds::Bounds;
+use crate::{Format, FormatModule};
+
+/// How many bytes `f` may consume, and how many it may read, as the code generator sees it.
+pub fn typed_bounds(module: &FormatModule, f: &Format) -> Result<(Bounds, Bounds), String> {
+    let tc = TypeChecker::infer_module(module, f).map_err(|e| e.to_string())?;
+    let mut elab = Elaborator::new(module, tc, CodeGen::new());
+    let (top, _) = elab.elaborate_module(module, f);
+    Ok((top.match_bounds(), top.lookahead_bounds()))
+}
diff --git a/src/lib.rs b/src/lib.rs
index 77fc747..2ae7c38 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::new_without_default)]
+#![allow(unexpected_cfgs)]
 #![deny(rust_2018_idioms)]
 
 use std::cmp::Ordering;
@@ -41,6 +42,10 @@ mod scope;
 mod typecheck;
 pub use typecheck::{TCResult, base_set, error::TCError, typecheck};
 mod util;
+
+/// Read-only access for external verification
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 pub(crate) use util::IxHeap;
 
 pub(crate) mod validation;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..9eb02ee
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,19 @@
+//! Read-only access to static analyses for external verification; compiled only with
+//! `--cfg verif_hooks`.
+use crate::bounds::Bounds;
+use crate::{Expr, Format, FormatModule};
+
+/// How many bytes `f` may consume, as the compiler sees it.
+pub fn match_bounds(module: &FormatModule, f: &Format) -> Bounds {
+    f.match_bounds(module)
+}
+
+/// How many bytes `f` may read, as the compiler sees it.
+pub fn lookahead_bounds(module: &FormatModule, f: &Format) -> Bounds {
+    f.lookahead_bounds(module)
+}
+
+/// Which values `e` may take, as the compiler sees it.
+pub fn expr_bounds(e: &Expr) -> Bounds {
+    e.bounds()
+}
-- 
2.43.0


From 2bf9d497895c8b411f6e09728893f3172e6dc245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 35/59] fix: bounds of a bitwise-and contain the result when
 one side is exact

---
 src/bounds.rs | 41 +++--------------------------------------
 1 file changed, 3 insertions(+), 38 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 7d76f80..8d7d503 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -277,22 +277,6 @@ impl Bounds {
             max: self.max.map(|n| n.div_ceil(8)),
         }
     }
-
-    /// Finds the pair `(x, m)` that yields the maximal `x & m` for `x` in the bounds of `self`.
-    ///
-    /// May fudge the value of `x` to an out-of-range value to shortcut the computation of `x & m`
-    /// over all in-range values, with the guarantee that the resulting bitwise-and will be no less
-    /// than the true maximum of `y & m` for actually-in-range `y`.
-    fn best_mask(&self, m: usize) -> (usize, usize) {
-        if self.contains(m) {
-            (m, m)
-        } else {
-            match self.max {
-                Some(n) => (mask(n), m),
-                _ => (m, m),
-            }
-        }
-    }
 }
 
 macro_rules! try_from_bounds {
@@ -455,36 +439,17 @@ impl BitAnd<Bounds> for Bounds {
         Bounds {
             min: (k1 & k2),
             max: match (lo_self.max, lo_rhs.max) {
-                (Some(m1), Some(m2)) => Some(match (lo_self.min == m1, lo_rhs.min == m2) {
-                    (true, true) => blend_bits(k1, k2, m1, m2),
-                    (true, false) => {
-                        // NOTE - the order of x2 and m in blend_bits matters
-                        let (x2, m) = lo_rhs.best_mask(m1);
-                        blend_bits(k1, k2, m, x2)
-                    }
-                    (false, true) => {
-                        // NOTE - the order of x1 and m in blend_bits matters
-                        let (x1, m) = lo_self.best_mask(m2);
-                        blend_bits(k1, k2, x1, m)
-                    }
-                    (false, false) => blend_bits(k1, k2, mask(m1), mask(m2)),
-                }),
+                // NOTE - each side is made up of its prefix-bits along with some subset of its masked bits
+                (Some(m1), Some(m2)) => Some((k1 | mask(m1)) & (k2 | mask(m2))),
                 _ => None,
             },
         }
     }
 }
 
-/// Blends the bits of two bit-prefixes along with the remaining bits of the sub-ranges they correspond to.
-///
-/// The argument order matters as the presumed-zero terms `k1 & m1` and `k2 & m2` are omitted from the computation
-fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
-    (k1 & k2) | (m1 & m2) | (k1 & m2) | (m1 & k2)
-}
-
 fn mask(x: usize) -> usize {
     if x != 0 {
-        1_usize.checked_shl(x.ilog2() + 1).unwrap() - 1
+        usize::MAX >> x.leading_zeros()
     } else {
         0
     }
-- 
2.43.0


From 45509c22daccae9df3e4be505dee1103cb292414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 36/59] fix: bounds of a left-shift account for bits lost to
 the operand width

---
 src/bounds.rs | 18 +++++++++++-------
 src/lib.rs    |  9 ++++++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 8d7d503..75d5322 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -371,14 +371,18 @@ impl Div<Bounds> for Bounds {
 
 impl Bounds {
     pub fn checked_shl(self, rhs: Self) -> Option<Self> {
-        let min2 = u32::try_from(rhs.min).ok()?;
-        let min = self.min.checked_shl(min2)?;
-        let max = match (self.max, rhs.max) {
-            (Some(m1), Some(m2)) => {
-                let max2 = u32::try_from(m2).ok()?;
-                // REVIEW - there may be edge-cases here where max2 < 64 but m1 overflows, yielding unexpectedly small values
-                m1.checked_shl(max2)
+        // NOTE - a shift that loses any significant bits is treated as an overflow
+        fn shl_exact(n: usize, amount: usize) -> Option<usize> {
+            let amount = u32::try_from(amount).ok()?;
+            if n == 0 || amount <= n.leading_zeros() {
+                n.checked_shl(amount)
+            } else {
+                None
             }
+        }
+        let min = shl_exact(self.min, rhs.min)?;
+        let max = match (self.max, rhs.max) {
+            (Some(m1), Some(m2)) => shl_exact(m1, m2),
             _ => None,
         };
         Some(Bounds { min, max })
diff --git a/src/lib.rs b/src/lib.rs
index 2ae7c38..90d037a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -738,7 +738,14 @@ impl Expr {
                 Arith::Div => a.bounds() / b.bounds(),
                 Arith::BitOr => a.bounds() | b.bounds(),
                 Arith::BitAnd => a.bounds() & b.bounds(),
-                Arith::Shl => a.bounds() << b.bounds(),
+                Arith::Shl => {
+                    // NOTE - bits that are shifted past the width of the operand are lost, and any type is at least 8 bits wide
+                    let bounds = a.bounds() << b.bounds();
+                    match bounds.max {
+                        Some(max) if max <= usize::from(u8::MAX) => bounds,
+                        _ => Bounds::any(),
+                    }
+                }
                 Arith::Shr => a.bounds() >> b.bounds(),
                 Arith::Rem => Bounds::rem(a.bounds(), b.bounds()),
                 Arith::BoolOr | Arith::BoolAnd => Bounds::any(),
-- 
2.43.0


From f97455a8847644a32e952ef96b3a47151e6a86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 37/59] fix: bounds of a remainder by zero do not panic

---
 src/bounds.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 75d5322..b38f33a 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -85,22 +85,16 @@ impl Bounds {
     ///
     /// Because remainder operations over ranges do not always yield contiguous ranges
     /// in either direction (e.g. `3..=5 % 4 -> [3, 0, 1]`; `110 % 11..=12 -> [0, 2]`),
-    /// this method returns `Bounds::any()` if either range is inexact.
+    /// this method returns `Bounds::any()` if either range is inexact, or if `rhs` is
+    /// exactly `0`.
     ///
-    /// Provided that `lhs = Bounds::exact(x)`, and `rhs = Bounds::exact(y)`, the
+    /// Provided that `lhs = Bounds::exact(x)`, and `rhs = Bounds::exact(y)` for `y != 0`, the
     /// result should always be `Bounds::exact(x % y)`.
-    ///
-    /// # Panics
-    ///
-    /// Will panic if both ranges are exact but `rhs == 0`.
-    ///
-    /// Even if `rhs` contains `0` as its minimum, will return `Bounds::any`
-    /// rather than panicking provided `rhs` is not `Bounds::exact(0)`.
     // REVIEW - should this be a `std::ops::Rem` impl?
     pub(crate) fn rem(lhs: Bounds, rhs: Bounds) -> Bounds {
         if let Some(y) = rhs.as_exact() {
             if let Some(x) = lhs.as_exact() {
-                return Bounds::exact(x.checked_rem(y).unwrap());
+                return x.checked_rem(y).map_or(Bounds::any(), Bounds::exact);
             } else {
                 // NOTE - some edge-cases may have general solutions but we won't attempt to solve them, for now
                 log::debug!(
-- 
2.43.0


From a94fdff72c6f1e4214e3031d4e5ffad99fa58a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 38/59] fix: typed lookahead bounds of SkipRemainder are
 unbounded, as for the untyped format

---
 src/codegen/typed_format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index 4c198fb..8e26e02 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -333,13 +333,14 @@ impl TypedFormat<GenType> {
             TypedFormat::FormatCall(_gt, _lvl, _args, _views, def) => def.lookahead_bounds(),
 
             TypedFormat::DecodeBytes(_, _, _)
-            | TypedFormat::SkipRemainder
             | TypedFormat::Pos(_)
             | TypedFormat::Compute(_, _)
             | TypedFormat::EndOfInput
             | TypedFormat::ParseFromView(_, _, _)
             | TypedFormat::Fail => Bounds::exact(0),
 
+            TypedFormat::SkipRemainder => Bounds::any(),
+
             TypedFormat::Peek(_, inner) | TypedFormat::PeekNot(_, inner) => {
                 inner.lookahead_bounds()
             }
-- 
2.43.0


From 3c27b265b4af32ca0a9c93b5999686c16b2bd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 39/59] fix: code generation leaves out unused formats that
 take arguments

---
 src/codegen/mod.rs | 5 ++++-
 src/typecheck.rs   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index de5023a..a4716b7 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -5270,7 +5270,10 @@ impl<'a> Elaborator<'a> {
     fn elaborate_module(&mut self, module: &'a FormatModule, top_format: &Format) -> ElabForest {
         let dyn_s = TypedDynScope::Empty;
 
-        let mut unexplored = BTreeSet::from_iter(0..module.formats.len());
+        // NOTE - a format that takes any arguments only has meaning where it is called
+        let mut unexplored = (0..module.formats.len())
+            .filter(|l| module.get_args(*l).is_empty() && module.get_view_args(*l).is_empty())
+            .collect::<BTreeSet<usize>>();
         let top = self.elaborate_format(top_format, &dyn_s);
 
         let mut seen_levels = self.t_formats.keys().copied().collect::<BTreeSet<usize>>();
diff --git a/src/typecheck.rs b/src/typecheck.rs
index f01c424..660fd29 100644
--- a/src/typecheck.rs
+++ b/src/typecheck.rs
@@ -3773,7 +3773,10 @@ impl TypeChecker {
         let scope = UScope::Empty;
         let ctxt = Ctxt::new(module, &scope);
 
-        let mut unexplored = BTreeSet::from_iter(0..module.formats.len());
+        // NOTE - a format that takes any arguments only has meaning where it is called
+        let mut unexplored = (0..module.formats.len())
+            .filter(|l| module.get_args(*l).is_empty() && module.get_view_args(*l).is_empty())
+            .collect::<BTreeSet<usize>>();
 
         let _ = this.infer_var_format(top_format, ctxt)?;
         let mut seen_levels = this.level_vars.keys().copied().collect::<BTreeSet<usize>>();
-- 
2.43.0


From d91b5aa414d696fd9dfdea575307923f51261716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:01 +0000
Subject: [PATCH 40/59] fix: generated arithmetic keeps the grouping of its
 right operands

---
 src/codegen/rust_ast/mod.rs | 38 +++++++++++++++++++++++++++++--------
 src/precedence.rs           |  1 -
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 099e95a..a4adbb4 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -12,7 +12,7 @@ use crate::numeric::elaborator::PrimInt as ExtPrimInt;
 use crate::codegen::model::{DEFAULT_LT, READ_ARRAY_IS_COPY, VIEW_OBJECT_IS_COPY};
 use crate::output::{Fragment, FragmentBuilder};
 
-use crate::precedence::{Precedence, cond_paren};
+use crate::precedence::{IntransitiveOrd, Precedence, cond_paren};
 use crate::{BaseKind, BaseType, IntoLabel, Label, ValueType};
 
 /// Enum-type (currently degenerate) for specifying the visibility of a top-level item
@@ -3270,6 +3270,17 @@ impl PrefixOperator {
 }
 
 impl InfixOperator {
+    /// Returns `true` if operands of this operator may be regrouped freely.
+    pub(crate) fn is_associative(&self) -> bool {
+        matches!(
+            self,
+            InfixOperator::BitAnd
+                | InfixOperator::BitOr
+                | InfixOperator::BoolAnd
+                | InfixOperator::BoolOr
+        )
+    }
+
     pub(crate) fn precedence(&self) -> Precedence {
         match self {
             InfixOperator::Eq | InfixOperator::Neq => Precedence::EQUALITY,
@@ -3436,13 +3447,24 @@ impl ToFragmentExt for RustOp {
     fn to_fragment_precedence(&self, prec: Precedence) -> Fragment {
         let inherent = self.precedence();
         match self {
-            RustOp::InfixOp(op, lhs, rhs) => cond_paren(
-                lhs.to_fragment_precedence(inherent)
-                    .cat(Fragment::string(op.token()))
-                    .cat(rhs.to_fragment_precedence(inherent)),
-                prec,
-                inherent,
-            ),
+            RustOp::InfixOp(op, lhs, rhs) => {
+                // NOTE - infix operators group to the left, so a right operand of the same precedence keeps its parentheses
+                let rhs_prec = match &**rhs {
+                    RustExpr::Operation(rhs_op @ RustOp::InfixOp(..))
+                        if !op.is_associative() && rhs_op.precedence().congruent(&inherent) =>
+                    {
+                        Precedence::ATOM
+                    }
+                    _ => inherent,
+                };
+                cond_paren(
+                    lhs.to_fragment_precedence(inherent)
+                        .cat(Fragment::string(op.token()))
+                        .cat(rhs.to_fragment_precedence(rhs_prec)),
+                    prec,
+                    inherent,
+                )
+            }
             RustOp::PrefixOp(op, inner) => cond_paren(
                 Fragment::string(op.token()).cat(inner.to_fragment_precedence(inherent)),
                 prec,
diff --git a/src/precedence.rs b/src/precedence.rs
index 77ab0f6..bcb1a0b 100644
--- a/src/precedence.rs
+++ b/src/precedence.rs
@@ -115,7 +115,6 @@ pub(crate) enum Relation {
 pub(crate) trait IntransitiveOrd {
     fn relate(&self, other: &Self) -> Relation;
 
-    #[expect(dead_code)]
     fn congruent(&self, other: &Self) -> bool {
         matches!(self.relate(other), Relation::Congruent)
     }
-- 
2.43.0


From 7573ab3c56e08c53342fd61dccc05ba787520d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:01 +0000
Subject: [PATCH 41/59] fix: generated RepeatBetween stops at its maximum
 without consulting the lookahead

---
 generated/gencode.rs | 12 ++++++------
 src/codegen/mod.rs   | 12 +++++++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index a2e1c1b..a727ff9 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -25557,7 +25557,7 @@ PResult::Ok(png_time { year, month, day, hour, minute, second })
 /// d#302
 fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -26535,7 +26535,7 @@ PResult::Ok(accum)
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -27558,7 +27558,7 @@ PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32
 /// d#305
 fn Decoder305(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -28536,7 +28536,7 @@ PResult::Ok(accum)
 /// d#306
 fn Decoder306(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -29766,7 +29766,7 @@ PResult::Ok(accum)
 /// d#312
 fn Decoder312(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -39253,7 +39253,7 @@ fn Decoder477(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
 let tuple_var = {
 let arg0 = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+while (_input.remaining() > 0) && (accum.len() < (9u16 as usize)) {
 let reps_left = {
 _input.open_peek_context();
 {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index a4716b7..d48133e 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3126,8 +3126,18 @@ where
                     };
                     let b_stop = GenControl::Break.into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
+                    // NOTE - once the maximum is reached, what follows is not looked at
+                    let more_allowed = RustExpr::infix(
+                        RustExpr::local(model::BETWEEN_ACCUM).vec_len(),
+                        InfixOperator::Lt,
+                        expr_max.clone().cast_as_usize(),
+                    );
                     GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
+                        Box::new(RustExpr::infix(
+                            model::gt0(model::rem_bytes(ctxt.parser())),
+                            InfixOperator::BoolAnd,
+                            more_allowed,
+                        )),
                         GenBlock::from_parts(vec![bind_reps_left], Some(escape_clause.into())),
                     )
                 };
-- 
2.43.0


From cc2deab87900df67db790ea10a6678f15eeaf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:01 +0000
Subject: [PATCH 42/59] fix: generated AsChar yields the replacement character
 for invalid code points

---
 generated/gencode.rs |  4 ++--
 src/codegen/mod.rs   | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index a727ff9..35304ce 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10032,7 +10032,7 @@ b
 return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
-(char::from_u32(0u32)).unwrap()
+(char::from_u32(0u32)).unwrap_or(char::REPLACEMENT_CHARACTER)
 },
 
 1 => {
@@ -10378,7 +10378,7 @@ return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 }
 };
-PResult::Ok((char::from_u32(codepoint)).unwrap())
+PResult::Ok((char::from_u32(codepoint)).unwrap_or(char::REPLACEMENT_CHARACTER))
 }
 
 /// d#21
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index d48133e..98e7774 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1253,9 +1253,22 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
         TypedExpr::U64Le(le_bytes) => {
             RustExpr::local("u64le").call_with([embed_expr_nat(le_bytes)])
         }
-        TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
-            .call_with([embed_expr_nat(codepoint)])
-            .call_method("unwrap"),
+        TypedExpr::AsChar(codepoint) => {
+            let code = embed_expr_nat(codepoint);
+            let code = match codepoint.get_type().and_then(|t| t.into_owned().to_rust_type().try_as_prim()) {
+                Some(PrimType::U8 | PrimType::U16) => RustExpr::Operation(RustOp::AsCast(
+                    Box::new(code),
+                    RustType::Atom(AtomType::Prim(PrimType::U32)),
+                )),
+                _ => code,
+            };
+            RustExpr::scoped(["char"], "from_u32")
+                .call_with([code])
+                .call_method_with(
+                    "unwrap_or",
+                    [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+                )
+        }
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
-- 
2.43.0


From bcaae6ca4b38d851186d2e8102d3af28db5fa88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:01 +0000
Subject: [PATCH 43/59] fix: generated alternatives around a decoder that
 cannot fail yield a Result

---
 src/codegen/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 98e7774..4b577f9 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2703,8 +2703,9 @@ impl GenBlock {
                     ret: Some(ret),
                 }
             } else {
+                // NOTE - a block that cannot fail still has to yield a `Result` to be inspected
                 Self {
-                    ret: Some(ret),
+                    ret: Some(ret.wrap_ok(Some("PResult"))),
                     ..self
                 }
             }
-- 
2.43.0


From 9fd1e3ee797f0eb72f82fef5ebbb592163f0ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:02 +0000
Subject: [PATCH 44/59] fix: generated union of a single branch is that branch

---
 src/codegen/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 4b577f9..aac8829 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3548,6 +3548,11 @@ where
                     "ParallelLogic::Alts found with empty list of parse-alternations"
                 );
 
+                // NOTE - a lone branch is its own outcome
+                if let [only_cl] = &alts[..] {
+                    return only_cl.to_ast(ctxt);
+                }
+
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-- 
2.43.0


From 8c3bc6b1394ef55906b76a0d424abb883c49754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:02 +0000
Subject: [PATCH 45/59] fix: generated DecodeBytes keeps a computed buffer
 alive

---
 src/codegen/mod.rs   | 21 +++++++++++++++++++--
 src/codegen/model.rs |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index aac8829..d944b11 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3640,10 +3640,23 @@ impl ToAst for DerivedLogic<GTExpr> {
                 block
             }
             DerivedLogic::DecodeBytes(bytes_expr, inner_cl) => {
+                // NOTE - a buffer that is computed in place has to outlive the parser over it
+                let (bind_buffer, buffer) = match &**bytes_expr {
+                    RustExpr::Owned(..) | RustExpr::Entity(..) | RustExpr::FieldAccess(..) => {
+                        (None, (**bytes_expr).clone())
+                    }
+                    other => (
+                        Some(GenStmt::Embed(RustStmt::assign(
+                            model::DECODE_BUF_BYTES,
+                            other.clone(),
+                        ))),
+                        RustExpr::local(model::DECODE_BUF_BYTES),
+                    ),
+                };
                 // boilerplate for creating a parser from the value-level buffer
                 let bind_parser_obj = GenStmt::Embed(model::let_mut_parser_new(
                     model::DECODE_BUF_PARSER_OBJ,
-                    bytes_expr.clone().vec_as_slice(),
+                    buffer.vec_as_slice(),
                 ));
                 let bind_ref_mut_parser = GenStmt::Embed(RustStmt::assign(
                     model::DECODE_BUF_PARSER_REF,
@@ -3659,7 +3672,11 @@ impl ToAst for DerivedLogic<GTExpr> {
                 };
 
                 let mut inner_block = inner_cl.to_ast(bytes_ctxt);
-                inner_block.prepend_stmts([bind_parser_obj, bind_ref_mut_parser]);
+                inner_block.prepend_stmts(
+                    bind_buffer
+                        .into_iter()
+                        .chain([bind_parser_obj, bind_ref_mut_parser]),
+                );
                 inner_block
             }
             DerivedLogic::ParseView(view, inner_cl) => {
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index bc4834d..5bab24e 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -138,6 +138,7 @@ pub const ALT_ERR_BIND: &str = "_e";
 // !SECTION
 
 // SECTION - magic strings related to DerivedLogic
+pub const DECODE_BUF_BYTES: &str = "buf_bytes";
 pub const DECODE_BUF_PARSER_OBJ: &str = "buf_parser";
 pub const DECODE_BUF_PARSER_REF: &str = "buf_input";
 
-- 
2.43.0


From 8bde345ce8b936f9d186ef1e0fe233e9d48aee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:02 +0000
Subject: [PATCH 46/59] fix: AccumUntil gives its accumulated sequence a type
 variable of its own

---
 src/codegen/mod.rs |  2 ++
 src/typecheck.rs   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index d944b11..ac343c3 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -4583,6 +4583,8 @@ impl<'a> Elaborator<'a> {
                 let t_update = self.elaborate_expr_lambda(update);
                 let t_init = self.elaborate_expr(init);
                 let t_inner = self.elaborate_format(inner, dyn_scope);
+                // NOTE - increment for the variable of the accumulated sequence
+                self.increment_index();
                 let gt = self.get_gt_from_index(index);
                 TypedFormat::AccumUntil(
                     gt,
diff --git a/src/typecheck.rs b/src/typecheck.rs
index 660fd29..a3046fc 100644
--- a/src/typecheck.rs
+++ b/src/typecheck.rs
@@ -3558,19 +3558,21 @@ impl TypeChecker {
                     self.infer_vars_expr_lambda(lambda_acc_elt, ctxt.scope)?;
                 let acc_var = self.infer_var_expr(init_acc, ctxt.scope)?;
                 let inner_t = self.infer_utype_format(inner, ctxt)?;
+                // the sequence needs a variable of its own, as the components of a tuple may not be nested
+                let seq_var = self.get_new_uvar();
 
                 // establish known equivalences
 
+                // Accumulated sequence is [x]
+                self.unify_var_utype(seq_var, Rc::new(UType::seq(inner_t.clone())))?;
+
                 // Initial accumulator value has the declared type
                 self.unify_var_valuetype(acc_var, vt_acc.as_ref())?;
 
                 // terminal predicate is (acc, [x]) -> bool
                 self.unify_var_utype(
                     acc_seq_var,
-                    Rc::new(UType::tuple([
-                        UType::Var(acc_var),
-                        UType::seq(inner_t.clone()),
-                    ])),
+                    Rc::new(UType::tuple([UType::Var(acc_var), UType::Var(seq_var)])),
                 )?;
                 self.unify_var_utype(done_var, Rc::new(UType::Base(BaseType::Bool)))?;
 
-- 
2.43.0


From 730f1a2179fc96164363a51151a58bd24207c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:02 +0000
Subject: [PATCH 47/59] fix: generated Where does not consume the value it
 tests

---
 src/codegen/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index ac343c3..2e5d44e 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3816,7 +3816,14 @@ impl ToAst for DerivedLogic<GTExpr> {
             }
             DerivedLogic::Where(f, severity, inner) => {
                 let assign_inner = GenStmt::assign(model::WHERE_INNER, inner.to_ast(ctxt));
-                let is_valid = f.apply(RustExpr::local(model::WHERE_INNER), ExprInfo::default());
+                // NOTE - the predicate must not consume the value it is testing
+                let inner_type = f.head_type.clone().to_rust_type();
+                let inner_value = if inner_type.can_be_copy() {
+                    RustExpr::local(model::WHERE_INNER)
+                } else {
+                    RustExpr::local(model::WHERE_INNER).owned(inner_type)
+                };
+                let is_valid = f.apply(inner_value, ExprInfo::default());
                 let bind_cond = GenStmt::Embed(RustStmt::assign(model::WHERE_CHECK, is_valid));
                 let ctrl = {
                     let b_valid = GenBlock::simple_expr(RustExpr::local(model::WHERE_INNER));
-- 
2.43.0


From f3ea5acb619831b355a5b59960f235613add3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:02 +0000
Subject: [PATCH 48/59] fix: generated RepeatUntilLast tests copyable elements
 by value

---
 src/codegen/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 2e5d44e..309f254 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3215,10 +3215,14 @@ where
                 let ctrl = {
                     let elt_bind = GenStmt::assign(model::UNTIL_LAST_ELEM, elt.to_ast(ctxt));
                     let stop_if_done = {
-                        let done_cond = pred_last.beta_reduce(
-                            RustExpr::borrow_of(RustExpr::local(model::UNTIL_LAST_ELEM)),
-                            ExprInfo::default(),
-                        );
+                        // NOTE - elements that can be copied are tested by value
+                        let elem_type = pred_last.head_type.clone().to_rust_type();
+                        let elem = if elem_type.can_be_copy() {
+                            RustExpr::local(model::UNTIL_LAST_ELEM).owned(elem_type)
+                        } else {
+                            RustExpr::borrow_of(RustExpr::local(model::UNTIL_LAST_ELEM))
+                        };
+                        let done_cond = pred_last.beta_reduce(elem, ExprInfo::default());
                         let b_terminal = GenBlock::from_parts(
                             vec![
                                 model::vec_push(
-- 
2.43.0


From 67cbe9f9a775636492034dc1b699c1b4feb7ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:02 +0000
Subject: [PATCH 49/59] fix: seq_append infers its element type

---
 src/prelude.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index 7833ff6..1e54873 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -135,13 +135,12 @@ where
 }
 
 /// Joins two slices into a single vector via iterator chaining, returning the result
-pub fn seq_append<T, S>(lhs: impl AsRef<S>, rhs: impl AsRef<S>) -> Vec<T>
+pub fn seq_append<T>(lhs: impl AsRef<[T]>, rhs: impl AsRef<[T]>) -> Vec<T>
 where
     T: Clone,
-    for<'a> &'a S: IntoIterator<Item = &'a T>,
 {
-    let lhs_iter = lhs.as_ref().into_iter().cloned();
-    let rhs_iter = rhs.as_ref().into_iter().cloned();
+    let lhs_iter = lhs.as_ref().iter().cloned();
+    let rhs_iter = rhs.as_ref().iter().cloned();
     Iterator::chain(lhs_iter, rhs_iter).collect()
 }
 
-- 
2.43.0


From e47f7dc42bd2feae4d83c49db79d047e6a60bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:05 +0000
Subject: [PATCH 50/59] fix: generated decoder of an optional part looks ahead
 no further than the part

---
 generated/gencode.rs         | 2099 +++++++++++++---------------------
 src/codegen/typed_decoder.rs |    2 +-
 2 files changed, 827 insertions(+), 1274 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 35304ce..54b9789 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -21,7 +21,7 @@ Decoder_elf_header_ident(p)
 }
 
 /// expected size: 5
-/// trait-ready: unique decoder function (d#255)
+/// trait-ready: unique decoder function (d#252)
 #[derive(Debug, Copy, Clone)]
 pub struct elf_header_ident {
 class: u8,
@@ -43,7 +43,7 @@ Decoder_elf_types_elf_addr(p, is_be, class)
 }
 
 /// expected size: 16
-/// trait-ready: unique decoder function (d#244)
+/// trait-ready: unique decoder function (d#241)
 #[derive(Debug, Copy, Clone)]
 pub enum elf_types_elf_addr { Addr32(u32), Addr64(u64) }
 
@@ -59,7 +59,7 @@ Decoder_elf_types_elf_off(p, is_be, class)
 }
 
 /// expected size: 16
-/// trait-ready: unique decoder function (d#245)
+/// trait-ready: unique decoder function (d#242)
 #[derive(Debug, Copy, Clone)]
 pub enum elf_types_elf_off { Off32(u32), Off64(u64) }
 
@@ -74,7 +74,7 @@ Decoder_elf_header(p)
 }
 
 /// expected size: 80
-/// trait-ready: unique decoder function (d#236)
+/// trait-ready: unique decoder function (d#233)
 #[derive(Debug, Copy, Clone)]
 pub struct elf_header {
 ident: elf_header_ident,
@@ -105,7 +105,7 @@ Decoder_elf_types_elf_full(p, is_be, class)
 }
 
 /// expected size: 16
-/// trait-ready: unique decoder function (d#243)
+/// trait-ready: unique decoder function (d#240)
 #[derive(Debug, Copy, Clone)]
 pub enum elf_types_elf_full { Full32(u32), Full64(u64) }
 
@@ -121,7 +121,7 @@ Decoder_elf_phdr(p, is_be, class)
 }
 
 /// expected size: 120
-/// trait-ready: unique decoder function (d#252)
+/// trait-ready: unique decoder function (d#249)
 #[derive(Debug, Copy, Clone)]
 pub struct elf_phdr {
 r#type: u32,
@@ -147,7 +147,7 @@ Decoder_elf_shdr(p, is_be, class)
 }
 
 /// expected size: 112
-/// trait-ready: unique decoder function (d#240)
+/// trait-ready: unique decoder function (d#237)
 #[derive(Debug, Copy, Clone)]
 pub struct elf_shdr {
 name: u32,
@@ -193,7 +193,7 @@ Decoder_gif_header(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#456)
+/// trait-ready: unique decoder function (d#449)
 #[derive(Debug, Clone)]
 pub struct gif_header {
 signature: (u8, u8, u8),
@@ -211,7 +211,7 @@ Decoder_gif_logical_screen_descriptor_flags(p)
 }
 
 /// expected size: 4
-/// trait-ready: unique decoder function (d#476)
+/// trait-ready: unique decoder function (d#469)
 #[derive(Debug, Copy, Clone)]
 pub struct gif_logical_screen_descriptor_flags {
 table_flag: bool,
@@ -231,7 +231,7 @@ Decoder_gif_logical_screen_descriptor(p)
 }
 
 /// expected size: 10
-/// trait-ready: unique decoder function (d#475)
+/// trait-ready: unique decoder function (d#468)
 #[derive(Debug, Copy, Clone)]
 pub struct gif_logical_screen_descriptor {
 screen_width: u16,
@@ -242,7 +242,7 @@ pixel_aspect_ratio: u8
 }
 
 /// expected size: 3
-/// trait-unready: multiple (2) decoders exist (d#{442, 471})
+/// trait-unready: multiple (2) decoders exist (d#{439, 464})
 #[derive(Debug, Copy, Clone)]
 pub struct gif_color_table_entry {
 r: u8,
@@ -261,7 +261,7 @@ Decoder_gif_logical_screen(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#457)
+/// trait-ready: unique decoder function (d#450)
 #[derive(Debug, Clone)]
 pub struct gif_logical_screen {
 descriptor: gif_logical_screen_descriptor,
@@ -279,7 +279,7 @@ Decoder_gif_graphic_control_extension_flags(p)
 }
 
 /// expected size: 3
-/// trait-ready: unique decoder function (d#474)
+/// trait-ready: unique decoder function (d#467)
 #[derive(Debug, Copy, Clone)]
 pub struct gif_graphic_control_extension_flags {
 disposal_method: u8,
@@ -298,7 +298,7 @@ Decoder_gif_graphic_control_extension(p)
 }
 
 /// expected size: 10
-/// trait-ready: unique decoder function (d#466)
+/// trait-ready: unique decoder function (d#459)
 #[derive(Debug, Copy, Clone)]
 pub struct gif_graphic_control_extension {
 separator: u8,
@@ -321,7 +321,7 @@ Decoder_gif_subblock(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#464)
+/// trait-ready: unique decoder function (d#457)
 #[derive(Debug, Clone)]
 pub struct gif_subblock {
 len_bytes: u8,
@@ -339,7 +339,7 @@ Decoder_gif_plain_text_extension(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#469)
+/// trait-ready: unique decoder function (d#462)
 #[derive(Debug, Clone)]
 pub struct gif_plain_text_extension {
 separator: u8,
@@ -368,7 +368,7 @@ Decoder_gif_image_descriptor_flags(p)
 }
 
 /// expected size: 4
-/// trait-ready: unique decoder function (d#473)
+/// trait-ready: unique decoder function (d#466)
 #[derive(Debug, Copy, Clone)]
 pub struct gif_image_descriptor_flags {
 table_flag: bool,
@@ -388,7 +388,7 @@ Decoder_gif_image_descriptor(p)
 }
 
 /// expected size: 14
-/// trait-ready: unique decoder function (d#470)
+/// trait-ready: unique decoder function (d#463)
 #[derive(Debug, Copy, Clone)]
 pub struct gif_image_descriptor {
 separator: u8,
@@ -410,7 +410,7 @@ Decoder_gif_table_based_image_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#472)
+/// trait-ready: unique decoder function (d#465)
 #[derive(Debug, Clone)]
 pub struct gif_table_based_image_data {
 lzw_min_code_size: u8,
@@ -429,7 +429,7 @@ Decoder_gif_table_based_image(p)
 }
 
 /// expected size: 72
-/// trait-ready: unique decoder function (d#468)
+/// trait-ready: unique decoder function (d#461)
 #[derive(Debug, Clone)]
 pub struct gif_table_based_image {
 descriptor: gif_image_descriptor,
@@ -448,7 +448,7 @@ Decoder_gif_graphic_rendering_block(p)
 }
 
 /// expected size: 80
-/// trait-ready: unique decoder function (d#467)
+/// trait-ready: unique decoder function (d#460)
 #[derive(Debug, Clone)]
 pub enum gif_graphic_rendering_block { plain_text_extension(gif_plain_text_extension), table_based_image(gif_table_based_image) }
 
@@ -463,7 +463,7 @@ Decoder_gif_graphic_block(p)
 }
 
 /// expected size: 96
-/// trait-ready: unique decoder function (d#460)
+/// trait-ready: unique decoder function (d#453)
 #[derive(Debug, Clone)]
 pub struct gif_graphic_block {
 graphic_control_extension: Option<gif_graphic_control_extension>,
@@ -481,7 +481,7 @@ Decoder_gif_application_extension(p)
 }
 
 /// expected size: 80
-/// trait-ready: unique decoder function (d#462)
+/// trait-ready: unique decoder function (d#455)
 #[derive(Debug, Clone)]
 pub struct gif_application_extension {
 separator: u8,
@@ -504,7 +504,7 @@ Decoder_gif_comment_extension(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#463)
+/// trait-ready: unique decoder function (d#456)
 #[derive(Debug, Clone)]
 pub struct gif_comment_extension {
 separator: u8,
@@ -524,7 +524,7 @@ Decoder_gif_special_purpose_block(p)
 }
 
 /// expected size: 88
-/// trait-ready: unique decoder function (d#461)
+/// trait-ready: unique decoder function (d#454)
 #[derive(Debug, Clone)]
 pub enum gif_special_purpose_block { application_extension(gif_application_extension), comment_extension(gif_comment_extension) }
 
@@ -539,7 +539,7 @@ Decoder_gif_block(p)
 }
 
 /// expected size: 104
-/// trait-ready: unique decoder function (d#458)
+/// trait-ready: unique decoder function (d#451)
 #[derive(Debug, Clone)]
 pub enum gif_block { graphic_block(gif_graphic_block), special_purpose_block(gif_special_purpose_block) }
 
@@ -554,7 +554,7 @@ Decoder_gif_trailer(p)
 }
 
 /// expected size: 1
-/// trait-ready: unique decoder function (d#459)
+/// trait-ready: unique decoder function (d#452)
 #[derive(Debug, Copy, Clone)]
 pub struct gif_trailer {
 separator: u8
@@ -661,8 +661,18 @@ xlen: u16,
 subfields: Vec<gzip_fextra_subfield>
 }
 
+impl CommonObject for gzip_fcomment {
+type Args<'x> = ();
+
+type Output<'x> = gzip_fcomment;
+
+fn parse<'input>(p: &mut Parser<'input>, _: ()) -> Result<Self::Output<'input>, ParseError> {
+Decoder_gzip_fcomment(p)
+}
+}
+
 /// expected size: 24
-/// trait-unready: multiple (3) decoders exist (d#{83, 451, 455})
+/// trait-ready: unique decoder function (d#83)
 #[derive(Debug, Clone)]
 pub struct gzip_fcomment {
 comment: Vec<u8>
@@ -891,7 +901,7 @@ footer: gzip_footer
 }
 
 /// expected size: 1
-/// trait-unready: multiple (10) decoders exist (d#{372, 374, 385, 386, 387, 388, 389, 390, 391, 392})
+/// trait-unready: multiple (10) decoders exist (d#{369, 371, 382, 383, 384, 385, 386, 387, 388, 389})
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_soi {
 marker: u8
@@ -908,7 +918,7 @@ Decoder_jpeg_app0_jfif(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#441)
+/// trait-ready: unique decoder function (d#438)
 #[derive(Debug, Clone)]
 pub struct jpeg_app0_jfif {
 version_major: u8,
@@ -932,7 +942,7 @@ Decoder_jpeg_app0_data_data(p, identifier)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#440)
+/// trait-ready: unique decoder function (d#437)
 #[derive(Debug, Clone)]
 pub enum jpeg_app0_data_data { jfif(jpeg_app0_jfif), other(Vec<u8>) }
 
@@ -947,7 +957,7 @@ Decoder_jpeg_app0_data(p)
 }
 
 /// expected size: 72
-/// trait-ready: unique decoder function (d#439)
+/// trait-ready: unique decoder function (d#436)
 #[derive(Debug, Clone)]
 pub struct jpeg_app0_data {
 identifier: Vec<u8>,
@@ -965,7 +975,7 @@ Decoder_jpeg_app0(p)
 }
 
 /// expected size: 80
-/// trait-ready: unique decoder function (d#418)
+/// trait-ready: unique decoder function (d#415)
 #[derive(Debug, Clone)]
 pub struct jpeg_app0 {
 marker: jpeg_soi,
@@ -984,7 +994,7 @@ Decoder_tiff_byte_order(p)
 }
 
 /// expected size: 3
-/// trait-ready: unique decoder function (d#271)
+/// trait-ready: unique decoder function (d#268)
 #[derive(Debug, Copy, Clone)]
 pub enum tiff_byte_order { be(u8, u8), le(u8, u8) }
 
@@ -999,7 +1009,7 @@ offset_or_data: u32
 }
 
 /// expected size: 56
-/// trait-unready: multiple (3) decoders exist (d#{272, 273, 274})
+/// trait-unready: multiple (3) decoders exist (d#{269, 270, 271})
 #[derive(Debug, Clone)]
 pub struct tiff_ifd_le {
 num_fields: u16,
@@ -1040,7 +1050,7 @@ Decoder_jpeg_app1_exif(p)
 }
 
 /// expected size: 80
-/// trait-ready: unique decoder function (d#437)
+/// trait-ready: unique decoder function (d#434)
 #[derive(Debug, Clone)]
 pub struct jpeg_app1_exif {
 padding: u8,
@@ -1058,7 +1068,7 @@ Decoder_jpeg_app1_xmp(p)
 }
 
 /// expected size: 24
-/// trait-ready: unique decoder function (d#438)
+/// trait-ready: unique decoder function (d#435)
 #[derive(Debug, Clone)]
 pub struct jpeg_app1_xmp {
 xmp: Vec<u8>
@@ -1075,7 +1085,7 @@ Decoder_jpeg_app1_data_data(p, identifier)
 }
 
 /// expected size: 88
-/// trait-ready: unique decoder function (d#436)
+/// trait-ready: unique decoder function (d#433)
 #[derive(Debug, Clone)]
 pub enum jpeg_app1_data_data { exif(jpeg_app1_exif), other(Vec<u8>), xmp(jpeg_app1_xmp) }
 
@@ -1090,7 +1100,7 @@ Decoder_jpeg_app1_data(p)
 }
 
 /// expected size: 112
-/// trait-ready: unique decoder function (d#435)
+/// trait-ready: unique decoder function (d#432)
 #[derive(Debug, Clone)]
 pub struct jpeg_app1_data {
 identifier: Vec<u8>,
@@ -1108,7 +1118,7 @@ Decoder_jpeg_app1(p)
 }
 
 /// expected size: 120
-/// trait-ready: unique decoder function (d#419)
+/// trait-ready: unique decoder function (d#416)
 #[derive(Debug, Clone)]
 pub struct jpeg_app1 {
 marker: jpeg_soi,
@@ -1127,12 +1137,12 @@ Decoder_jpeg_frame_initial_segment(p)
 }
 
 /// expected size: 128
-/// trait-ready: unique decoder function (d#375)
+/// trait-ready: unique decoder function (d#372)
 #[derive(Debug, Clone)]
 pub enum jpeg_frame_initial_segment { app0(jpeg_app0), app1(jpeg_app1) }
 
 /// expected size: 32
-/// trait-unready: multiple (16) decoders exist (d#{420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 484})
+/// trait-unready: multiple (16) decoders exist (d#{417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 477})
 #[derive(Debug, Clone)]
 pub struct jpeg_app2 {
 marker: jpeg_soi,
@@ -1151,7 +1161,7 @@ Decoder_jpeg_class_table_id(p)
 }
 
 /// expected size: 2
-/// trait-ready: unique decoder function (d#445)
+/// trait-ready: unique decoder function (d#442)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_class_table_id {
 class: u8,
@@ -1169,7 +1179,7 @@ Decoder_jpeg_dac_data(p)
 }
 
 /// expected size: 3
-/// trait-ready: unique decoder function (d#444)
+/// trait-ready: unique decoder function (d#441)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_dac_data {
 class_table_id: jpeg_class_table_id,
@@ -1187,7 +1197,7 @@ Decoder_jpeg_dac(p)
 }
 
 /// expected size: 6
-/// trait-ready: unique decoder function (d#416)
+/// trait-ready: unique decoder function (d#413)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_dac {
 marker: jpeg_soi,
@@ -1206,7 +1216,7 @@ Decoder_jpeg_dht_data(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#446)
+/// trait-ready: unique decoder function (d#443)
 #[derive(Debug, Clone)]
 pub struct jpeg_dht_data {
 class_table_id: jpeg_class_table_id,
@@ -1225,7 +1235,7 @@ Decoder_jpeg_dht(p)
 }
 
 /// expected size: 64
-/// trait-ready: unique decoder function (d#415)
+/// trait-ready: unique decoder function (d#412)
 #[derive(Debug, Clone)]
 pub struct jpeg_dht {
 marker: jpeg_soi,
@@ -1244,7 +1254,7 @@ Decoder_jpeg_precision_table_id(p)
 }
 
 /// expected size: 2
-/// trait-ready: unique decoder function (d#448)
+/// trait-ready: unique decoder function (d#445)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_precision_table_id {
 precision: u8,
@@ -1262,7 +1272,7 @@ Decoder_jpeg_dqt_data_elements(p, precision)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#449)
+/// trait-ready: unique decoder function (d#446)
 #[derive(Debug, Clone)]
 pub enum jpeg_dqt_data_elements { Bytes(Vec<u8>), Shorts(Vec<u16>) }
 
@@ -1277,7 +1287,7 @@ Decoder_jpeg_dqt_data(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#447)
+/// trait-ready: unique decoder function (d#444)
 #[derive(Debug, Clone)]
 pub struct jpeg_dqt_data {
 precision_table_id: jpeg_precision_table_id,
@@ -1295,7 +1305,7 @@ Decoder_jpeg_dqt(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#414)
+/// trait-ready: unique decoder function (d#411)
 #[derive(Debug, Clone)]
 pub struct jpeg_dqt {
 marker: jpeg_soi,
@@ -1314,7 +1324,7 @@ Decoder_jpeg_dri_data(p)
 }
 
 /// expected size: 2
-/// trait-ready: unique decoder function (d#443)
+/// trait-ready: unique decoder function (d#440)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_dri_data {
 restart_interval: u16
@@ -1331,7 +1341,7 @@ Decoder_jpeg_dri(p)
 }
 
 /// expected size: 6
-/// trait-ready: unique decoder function (d#417)
+/// trait-ready: unique decoder function (d#414)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_dri {
 marker: jpeg_soi,
@@ -1350,12 +1360,12 @@ Decoder_jpeg_table_or_misc(p)
 }
 
 /// expected size: 128
-/// trait-ready: unique decoder function (d#376)
+/// trait-ready: unique decoder function (d#373)
 #[derive(Debug, Clone)]
 pub enum jpeg_table_or_misc { app0(jpeg_app0), app1(jpeg_app1), app10(jpeg_app2), app11(jpeg_app2), app12(jpeg_app2), app13(jpeg_app2), app14(jpeg_app2), app15(jpeg_app2), app2(jpeg_app2), app3(jpeg_app2), app4(jpeg_app2), app5(jpeg_app2), app6(jpeg_app2), app7(jpeg_app2), app8(jpeg_app2), app9(jpeg_app2), com(jpeg_app2), dac(jpeg_dac), dht(jpeg_dht), dqt(jpeg_dqt), dri(jpeg_dri) }
 
 /// expected size: 2
-/// trait-unready: multiple (2) decoders exist (d#{478, 480})
+/// trait-unready: multiple (2) decoders exist (d#{471, 473})
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_dhp_image_component_sampling_factor {
 horizontal: u8,
@@ -1363,7 +1373,7 @@ vertical: u8
 }
 
 /// expected size: 4
-/// trait-unready: multiple (3) decoders exist (d#{413, 479, 482})
+/// trait-unready: multiple (3) decoders exist (d#{410, 472, 475})
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_sof_image_component {
 id: u8,
@@ -1372,7 +1382,7 @@ quantization_table_id: u8
 }
 
 /// expected size: 32
-/// trait-unready: multiple (3) decoders exist (d#{412, 481, 486})
+/// trait-unready: multiple (3) decoders exist (d#{409, 474, 479})
 #[derive(Debug, Clone)]
 pub struct jpeg_sof_data {
 sample_precision: u8,
@@ -1383,7 +1393,7 @@ image_components: Vec<jpeg_sof_image_component>
 }
 
 /// expected size: 40
-/// trait-unready: multiple (14) decoders exist (d#{399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 485})
+/// trait-unready: multiple (14) decoders exist (d#{396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 478})
 #[derive(Debug, Clone)]
 pub struct jpeg_sof0 {
 marker: jpeg_soi,
@@ -1402,7 +1412,7 @@ Decoder_jpeg_frame_header(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#377)
+/// trait-ready: unique decoder function (d#374)
 #[derive(Debug, Clone)]
 pub enum jpeg_frame_header { sof0(jpeg_sof0), sof1(jpeg_sof0), sof10(jpeg_sof0), sof11(jpeg_sof0), sof13(jpeg_sof0), sof14(jpeg_sof0), sof15(jpeg_sof0), sof2(jpeg_sof0), sof3(jpeg_sof0), sof5(jpeg_sof0), sof6(jpeg_sof0), sof7(jpeg_sof0), sof9(jpeg_sof0) }
 
@@ -1417,7 +1427,7 @@ Decoder_jpeg_sos_image_component_entropy_coding_table_ids(p)
 }
 
 /// expected size: 2
-/// trait-ready: unique decoder function (d#396)
+/// trait-ready: unique decoder function (d#393)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_sos_image_component_entropy_coding_table_ids {
 dc_entropy_coding_table_id: u8,
@@ -1435,7 +1445,7 @@ Decoder_jpeg_sos_image_component(p)
 }
 
 /// expected size: 3
-/// trait-ready: unique decoder function (d#394)
+/// trait-ready: unique decoder function (d#391)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_sos_image_component {
 component_selector: u8,
@@ -1453,7 +1463,7 @@ Decoder_jpeg_sos_data_approximation_bit_position(p)
 }
 
 /// expected size: 2
-/// trait-ready: unique decoder function (d#395)
+/// trait-ready: unique decoder function (d#392)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_sos_data_approximation_bit_position {
 high: u8,
@@ -1471,7 +1481,7 @@ Decoder_jpeg_sos_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#393)
+/// trait-ready: unique decoder function (d#390)
 #[derive(Debug, Clone)]
 pub struct jpeg_sos_data {
 num_image_components: u8,
@@ -1492,7 +1502,7 @@ Decoder_jpeg_sos(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#381)
+/// trait-ready: unique decoder function (d#378)
 #[derive(Debug, Clone)]
 pub struct jpeg_sos {
 marker: jpeg_soi,
@@ -1511,12 +1521,12 @@ Decoder_jpeg_scan_data_entropy_coded_segment(p)
 }
 
 /// expected size: 2
-/// trait-ready: unique decoder function (d#383)
+/// trait-ready: unique decoder function (d#380)
 #[derive(Debug, Copy, Clone)]
 pub enum jpeg_scan_data_entropy_coded_segment { mcu(u8), rst0(jpeg_soi), rst1(jpeg_soi), rst2(jpeg_soi), rst3(jpeg_soi), rst4(jpeg_soi), rst5(jpeg_soi), rst6(jpeg_soi), rst7(jpeg_soi) }
 
 /// expected size: 48
-/// trait-unready: multiple (2) decoders exist (d#{382, 398})
+/// trait-unready: multiple (2) decoders exist (d#{379, 395})
 #[derive(Debug, Clone)]
 pub struct jpeg_scan_data {
 scan_data: Vec<jpeg_scan_data_entropy_coded_segment>,
@@ -1524,7 +1534,7 @@ scan_data_stream: Vec<u8>
 }
 
 /// expected size: 112
-/// trait-unready: multiple (2) decoders exist (d#{378, 380})
+/// trait-unready: multiple (2) decoders exist (d#{375, 377})
 #[derive(Debug, Clone)]
 pub struct jpeg_scan {
 segments: Vec<jpeg_table_or_misc>,
@@ -1543,7 +1553,7 @@ Decoder_jpeg_dnl_data(p)
 }
 
 /// expected size: 2
-/// trait-ready: unique decoder function (d#397)
+/// trait-ready: unique decoder function (d#394)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_dnl_data {
 num_lines: u16
@@ -1560,7 +1570,7 @@ Decoder_jpeg_dnl(p)
 }
 
 /// expected size: 6
-/// trait-ready: unique decoder function (d#379)
+/// trait-ready: unique decoder function (d#376)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_dnl {
 marker: jpeg_soi,
@@ -1579,7 +1589,7 @@ Decoder_jpeg_frame(p)
 }
 
 /// expected size: 344
-/// trait-ready: unique decoder function (d#373)
+/// trait-ready: unique decoder function (d#370)
 #[derive(Debug, Clone)]
 pub struct jpeg_frame {
 initial_segment: jpeg_frame_initial_segment,
@@ -1620,7 +1630,7 @@ Decoder_mpeg4_ftyp_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#318)
+/// trait-ready: unique decoder function (d#315)
 #[derive(Debug, Clone)]
 pub struct mpeg4_ftyp_data {
 major_brand: (u8, u8, u8, u8),
@@ -1629,7 +1639,7 @@ compatible_brands: Vec<(u8, u8, u8, u8)>
 }
 
 /// expected size: 40
-/// trait-unready: multiple (2) decoders exist (d#{347, 349})
+/// trait-unready: multiple (2) decoders exist (d#{344, 346})
 #[derive(Debug, Clone)]
 pub struct mpeg4_dref_data_data {
 size_field: u32,
@@ -1649,7 +1659,7 @@ Decoder_mpeg4_dref_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#348)
+/// trait-ready: unique decoder function (d#345)
 #[derive(Debug, Clone)]
 pub struct mpeg4_dref_data {
 version: u8,
@@ -1674,7 +1684,7 @@ Decoder_mpeg4_dinf_atom(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#333)
+/// trait-ready: unique decoder function (d#330)
 #[derive(Debug, Clone)]
 pub struct mpeg4_dinf_atom {
 size_field: u32,
@@ -1694,7 +1704,7 @@ Decoder_mpeg4_meta_hdlr_data(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#353)
+/// trait-ready: unique decoder function (d#350)
 #[derive(Debug, Clone)]
 pub struct mpeg4_meta_hdlr_data {
 version: u8,
@@ -1716,7 +1726,7 @@ Decoder_mpeg4_infe_data_fields_version_lt2(p)
 }
 
 /// expected size: 80
-/// trait-ready: unique decoder function (d#367)
+/// trait-ready: unique decoder function (d#364)
 #[derive(Debug, Clone)]
 pub struct mpeg4_infe_data_fields_version_lt2 {
 item_ID: u16,
@@ -1737,7 +1747,7 @@ Decoder_mpeg4_infe_atom_data_extra_fields_mime(p)
 }
 
 /// expected size: 24
-/// trait-ready: unique decoder function (d#370)
+/// trait-ready: unique decoder function (d#367)
 #[derive(Debug, Clone)]
 pub struct mpeg4_infe_atom_data_extra_fields_mime {
 content_type: Vec<u8>
@@ -1754,7 +1764,7 @@ Decoder_mpeg4_infe_atom_data_extra_fields_uri(p)
 }
 
 /// expected size: 24
-/// trait-ready: unique decoder function (d#371)
+/// trait-ready: unique decoder function (d#368)
 #[derive(Debug, Clone)]
 pub struct mpeg4_infe_atom_data_extra_fields_uri {
 item_uri_type: Vec<u8>
@@ -1771,7 +1781,7 @@ Decoder_mpeg4_infe_atom_data_extra_fields(p, item_type)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#369)
+/// trait-ready: unique decoder function (d#366)
 #[derive(Debug, Clone)]
 pub enum mpeg4_infe_atom_data_extra_fields { mime(mpeg4_infe_atom_data_extra_fields_mime), unknown, uri(mpeg4_infe_atom_data_extra_fields_uri) }
 
@@ -1786,7 +1796,7 @@ Decoder_mpeg4_infe_data_fields_version_gte2(p, version)
 }
 
 /// expected size: 72
-/// trait-ready: unique decoder function (d#368)
+/// trait-ready: unique decoder function (d#365)
 #[derive(Debug, Clone)]
 pub struct mpeg4_infe_data_fields_version_gte2 {
 item_ID: u32,
@@ -1807,7 +1817,7 @@ Decoder_mpeg4_infe_data_fields(p, version)
 }
 
 /// expected size: 88
-/// trait-ready: unique decoder function (d#366)
+/// trait-ready: unique decoder function (d#363)
 #[derive(Debug, Clone)]
 pub enum mpeg4_infe_data_fields { Version1(mpeg4_infe_data_fields_version_lt2), Version2(mpeg4_infe_data_fields_version_gte2) }
 
@@ -1822,7 +1832,7 @@ Decoder_mpeg4_iinf_atom_data_infe(p)
 }
 
 /// expected size: 96
-/// trait-ready: unique decoder function (d#365)
+/// trait-ready: unique decoder function (d#362)
 #[derive(Debug, Clone)]
 pub struct mpeg4_iinf_atom_data_infe {
 version: u8,
@@ -1846,7 +1856,7 @@ Decoder_mpeg4_iinf_atom(p)
 }
 
 /// expected size: 120
-/// trait-ready: unique decoder function (d#364)
+/// trait-ready: unique decoder function (d#361)
 #[derive(Debug, Clone)]
 pub struct mpeg4_iinf_atom {
 size_field: u32,
@@ -1866,7 +1876,7 @@ Decoder_mpeg4_iinf(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#355)
+/// trait-ready: unique decoder function (d#352)
 #[derive(Debug, Clone)]
 pub struct mpeg4_iinf {
 version: u8,
@@ -1887,7 +1897,7 @@ Decoder_mpeg4_iloc_extent(p, offset_size, length_size, index_size)
 }
 
 /// expected size: 24
-/// trait-ready: unique decoder function (d#361)
+/// trait-ready: unique decoder function (d#358)
 #[derive(Debug, Copy, Clone)]
 pub struct mpeg4_iloc_extent {
 extent_index: u64,
@@ -1918,7 +1928,7 @@ Decoder_mpeg4_iloc_atom_data(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#357)
+/// trait-ready: unique decoder function (d#354)
 #[derive(Debug, Clone)]
 pub struct mpeg4_iloc_atom_data {
 version: u8,
@@ -1942,7 +1952,7 @@ Decoder_mpeg4_tool_atom_data_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#360)
+/// trait-ready: unique decoder function (d#357)
 #[derive(Debug, Clone)]
 pub struct mpeg4_tool_atom_data_data {
 type_indicator: u32,
@@ -1966,7 +1976,7 @@ Decoder_mpeg4_tool_atom(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#359)
+/// trait-ready: unique decoder function (d#356)
 #[derive(Debug, Clone)]
 pub struct mpeg4_tool_atom {
 size_field: u32,
@@ -1991,7 +2001,7 @@ Decoder_mpeg4_ilst_atom(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#358)
+/// trait-ready: unique decoder function (d#355)
 #[derive(Debug, Clone)]
 pub struct mpeg4_ilst_atom {
 size_field: u32,
@@ -2020,7 +2030,7 @@ Decoder_mpeg4_iref_data_single_item_reference_large(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#363)
+/// trait-ready: unique decoder function (d#360)
 #[derive(Debug, Clone)]
 pub struct mpeg4_iref_data_single_item_reference_large {
 size_field: u32,
@@ -2049,7 +2059,7 @@ Decoder_mpeg4_iref_data_single_item_reference_small(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#362)
+/// trait-ready: unique decoder function (d#359)
 #[derive(Debug, Clone)]
 pub struct mpeg4_iref_data_single_item_reference_small {
 size_field: u32,
@@ -2074,7 +2084,7 @@ Decoder_mpeg4_iref_data(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#356)
+/// trait-ready: unique decoder function (d#353)
 #[derive(Debug, Clone)]
 pub struct mpeg4_iref_data {
 version: u8,
@@ -2098,7 +2108,7 @@ Decoder_mpeg4_pitm_atom_data(p)
 }
 
 /// expected size: 12
-/// trait-ready: unique decoder function (d#354)
+/// trait-ready: unique decoder function (d#351)
 #[derive(Debug, Copy, Clone)]
 pub struct mpeg4_pitm_atom_data {
 version: u8,
@@ -2117,7 +2127,7 @@ Decoder_mpeg4_meta_atom_data(p, r#type)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#352)
+/// trait-ready: unique decoder function (d#349)
 #[derive(Debug, Clone)]
 pub enum mpeg4_meta_atom_data { dinf(Vec<mpeg4_dinf_atom>), hdlr(mpeg4_meta_hdlr_data), idat(Vec<u8>), iinf(mpeg4_iinf), iloc(mpeg4_iloc_atom_data), ilst(Vec<mpeg4_ilst_atom>), iref(mpeg4_iref_data), pitm(mpeg4_pitm_atom_data), unknown(Vec<u8>) }
 
@@ -2132,7 +2142,7 @@ Decoder_mpeg4_meta_atom(p)
 }
 
 /// expected size: 72
-/// trait-ready: unique decoder function (d#319)
+/// trait-ready: unique decoder function (d#316)
 #[derive(Debug, Clone)]
 pub struct mpeg4_meta_atom {
 size_field: u32,
@@ -2177,7 +2187,7 @@ Decoder_mpeg4_mvhd_data(p)
 }
 
 /// expected size: 112
-/// trait-ready: unique decoder function (d#321)
+/// trait-ready: unique decoder function (d#318)
 #[derive(Debug, Clone)]
 pub struct mpeg4_mvhd_data {
 version: u8,
@@ -2203,7 +2213,7 @@ Decoder_mpeg4_elst_data_entry(p)
 }
 
 /// expected size: 12
-/// trait-ready: unique decoder function (d#351)
+/// trait-ready: unique decoder function (d#348)
 #[derive(Debug, Copy, Clone)]
 pub struct mpeg4_elst_data_entry {
 track_duration: u32,
@@ -2222,7 +2232,7 @@ Decoder_mpeg4_elst_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#350)
+/// trait-ready: unique decoder function (d#347)
 #[derive(Debug, Clone)]
 pub struct mpeg4_elst_data {
 version: u8,
@@ -2247,7 +2257,7 @@ Decoder_mpeg4_edts_atom(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#325)
+/// trait-ready: unique decoder function (d#322)
 #[derive(Debug, Clone)]
 pub struct mpeg4_edts_atom {
 size_field: u32,
@@ -2267,7 +2277,7 @@ Decoder_mpeg4_mdia_hdlr_data(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#328)
+/// trait-ready: unique decoder function (d#325)
 #[derive(Debug, Clone)]
 pub struct mpeg4_mdia_hdlr_data {
 version: u8,
@@ -2291,7 +2301,7 @@ Decoder_mpeg4_mdhd_data(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#329)
+/// trait-ready: unique decoder function (d#326)
 #[derive(Debug, Copy, Clone)]
 pub struct mpeg4_mdhd_data {
 version: u8,
@@ -2312,7 +2322,7 @@ Decoder_mpeg4_smhd_data(p)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#332)
+/// trait-ready: unique decoder function (d#329)
 #[derive(Debug, Copy, Clone)]
 pub struct mpeg4_smhd_data {
 version: u8,
@@ -2332,7 +2342,7 @@ Decoder_mpeg4_co64_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#342)
+/// trait-ready: unique decoder function (d#339)
 #[derive(Debug, Clone)]
 pub struct mpeg4_co64_data {
 version: u8,
@@ -2352,7 +2362,7 @@ Decoder_mpeg4_ctts_sample_entry(p)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#345)
+/// trait-ready: unique decoder function (d#342)
 #[derive(Debug, Copy, Clone)]
 pub struct mpeg4_ctts_sample_entry {
 sample_count: u32,
@@ -2370,7 +2380,7 @@ Decoder_mpeg4_ctts_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#337)
+/// trait-ready: unique decoder function (d#334)
 #[derive(Debug, Clone)]
 pub struct mpeg4_ctts_data {
 version: u8,
@@ -2398,7 +2408,7 @@ Decoder_mpeg4_sbgp_data(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#344)
+/// trait-ready: unique decoder function (d#341)
 #[derive(Debug, Clone)]
 pub struct mpeg4_sbgp_data {
 version: u8,
@@ -2428,7 +2438,7 @@ Decoder_mpeg4_sgpd_data(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#343)
+/// trait-ready: unique decoder function (d#340)
 #[derive(Debug, Clone)]
 pub struct mpeg4_sgpd_data {
 version: u8,
@@ -2450,7 +2460,7 @@ Decoder_mpeg4_stco_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#341)
+/// trait-ready: unique decoder function (d#338)
 #[derive(Debug, Clone)]
 pub struct mpeg4_stco_data {
 version: u8,
@@ -2479,7 +2489,7 @@ Decoder_mpeg4_stsc_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#339)
+/// trait-ready: unique decoder function (d#336)
 #[derive(Debug, Clone)]
 pub struct mpeg4_stsc_data {
 version: u8,
@@ -2499,7 +2509,7 @@ Decoder_mpeg4_stsd_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#335)
+/// trait-ready: unique decoder function (d#332)
 #[derive(Debug, Clone)]
 pub struct mpeg4_stsd_data {
 version: u8,
@@ -2519,7 +2529,7 @@ Decoder_mpeg4_stss_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#338)
+/// trait-ready: unique decoder function (d#335)
 #[derive(Debug, Clone)]
 pub struct mpeg4_stss_data {
 version: u8,
@@ -2539,7 +2549,7 @@ Decoder_mpeg4_stsz_data(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#340)
+/// trait-ready: unique decoder function (d#337)
 #[derive(Debug, Clone)]
 pub struct mpeg4_stsz_data {
 version: u8,
@@ -2560,7 +2570,7 @@ Decoder_mpeg4_stts_sample_entry(p)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#346)
+/// trait-ready: unique decoder function (d#343)
 #[derive(Debug, Copy, Clone)]
 pub struct mpeg4_stts_sample_entry {
 sample_count: u32,
@@ -2578,7 +2588,7 @@ Decoder_mpeg4_stts_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#336)
+/// trait-ready: unique decoder function (d#333)
 #[derive(Debug, Clone)]
 pub struct mpeg4_stts_data {
 version: u8,
@@ -2603,7 +2613,7 @@ Decoder_mpeg4_stbl_atom(p)
 }
 
 /// expected size: 72
-/// trait-ready: unique decoder function (d#334)
+/// trait-ready: unique decoder function (d#331)
 #[derive(Debug, Clone)]
 pub struct mpeg4_stbl_atom {
 size_field: u32,
@@ -2623,7 +2633,7 @@ Decoder_mpeg4_vmhd_data(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#331)
+/// trait-ready: unique decoder function (d#328)
 #[derive(Debug, Clone)]
 pub struct mpeg4_vmhd_data {
 version: u8,
@@ -2648,7 +2658,7 @@ Decoder_mpeg4_minf_atom(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#330)
+/// trait-ready: unique decoder function (d#327)
 #[derive(Debug, Clone)]
 pub struct mpeg4_minf_atom {
 size_field: u32,
@@ -2668,7 +2678,7 @@ Decoder_mpeg4_mdia_atom_data(p, r#type)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#327)
+/// trait-ready: unique decoder function (d#324)
 #[derive(Debug, Clone)]
 pub enum mpeg4_mdia_atom_data { hdlr(mpeg4_mdia_hdlr_data), mdhd(mpeg4_mdhd_data), minf(Vec<mpeg4_minf_atom>), unknown(Vec<u8>) }
 
@@ -2683,7 +2693,7 @@ Decoder_mpeg4_mdia_atom(p)
 }
 
 /// expected size: 72
-/// trait-ready: unique decoder function (d#326)
+/// trait-ready: unique decoder function (d#323)
 #[derive(Debug, Clone)]
 pub struct mpeg4_mdia_atom {
 size_field: u32,
@@ -2730,7 +2740,7 @@ Decoder_mpeg4_tkhd_data(p)
 }
 
 /// expected size: 96
-/// trait-ready: unique decoder function (d#324)
+/// trait-ready: unique decoder function (d#321)
 #[derive(Debug, Clone)]
 pub struct mpeg4_tkhd_data {
 version: u8,
@@ -2762,7 +2772,7 @@ Decoder_mpeg4_trak_atom(p)
 }
 
 /// expected size: 120
-/// trait-ready: unique decoder function (d#322)
+/// trait-ready: unique decoder function (d#319)
 #[derive(Debug, Clone)]
 pub struct mpeg4_trak_atom {
 size_field: u32,
@@ -2787,7 +2797,7 @@ Decoder_mpeg4_udta_atom(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#323)
+/// trait-ready: unique decoder function (d#320)
 #[derive(Debug, Clone)]
 pub struct mpeg4_udta_atom {
 size_field: u32,
@@ -2812,7 +2822,7 @@ Decoder_mpeg4_moov_atom(p)
 }
 
 /// expected size: 136
-/// trait-ready: unique decoder function (d#320)
+/// trait-ready: unique decoder function (d#317)
 #[derive(Debug, Clone)]
 pub struct mpeg4_moov_atom {
 size_field: u32,
@@ -2837,7 +2847,7 @@ Decoder_mpeg4_atom(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#316)
+/// trait-ready: unique decoder function (d#313)
 #[derive(Debug, Clone)]
 pub struct mpeg4_atom {
 size_field: u32,
@@ -2926,7 +2936,7 @@ Decoder_opentype_cmap_subtable_format0(p, _platform)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#225)
+/// trait-ready: unique decoder function (d#222)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format0 {
 length: u16,
@@ -2945,7 +2955,7 @@ Decoder_opentype_cmap_subtable_format10(p, _platform)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#230)
+/// trait-ready: unique decoder function (d#227)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format10 {
 length: u32,
@@ -2966,7 +2976,7 @@ Decoder_opentype_types_sequential_map_record(p)
 }
 
 /// expected size: 12
-/// trait-ready: unique decoder function (d#235)
+/// trait-ready: unique decoder function (d#232)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_types_sequential_map_record {
 start_char_code: u32,
@@ -2975,7 +2985,7 @@ start_glyph_id: u32
 }
 
 /// expected size: 40
-/// trait-unready: multiple (2) decoders exist (d#{231, 232})
+/// trait-unready: multiple (2) decoders exist (d#{228, 229})
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format12 {
 length: u32,
@@ -3043,7 +3053,7 @@ Decoder_opentype_variation_selector(p, table_view)
 }
 
 /// expected size: 12
-/// trait-ready: unique decoder function (d#234)
+/// trait-ready: unique decoder function (d#231)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_variation_selector {
 var_selector: u32,
@@ -3062,7 +3072,7 @@ Decoder_opentype_cmap_subtable_format14(p, table_view)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#233)
+/// trait-ready: unique decoder function (d#230)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format14 {
 length: u32,
@@ -3091,7 +3101,7 @@ Decoder_opentype_cmap_subtable_format2(p, _platform)
 }
 
 /// expected size: 80
-/// trait-ready: unique decoder function (d#226)
+/// trait-ready: unique decoder function (d#223)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format2 {
 length: u16,
@@ -3112,7 +3122,7 @@ Decoder_opentype_cmap_subtable_format4(p, _platform)
 }
 
 /// expected size: 136
-/// trait-ready: unique decoder function (d#227)
+/// trait-ready: unique decoder function (d#224)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format4 {
 length: u16,
@@ -3139,7 +3149,7 @@ Decoder_opentype_cmap_subtable_format6(p, _platform)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#228)
+/// trait-ready: unique decoder function (d#225)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format6 {
 _format: u16,
@@ -3161,7 +3171,7 @@ Decoder_opentype_cmap_subtable_format8(p, _platform)
 }
 
 /// expected size: 64
-/// trait-ready: unique decoder function (d#229)
+/// trait-ready: unique decoder function (d#226)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable_format8 {
 length: u32,
@@ -3187,7 +3197,7 @@ Decoder_opentype_cmap_subtable(p, _platform)
 }
 
 /// expected size: 176
-/// trait-ready: unique decoder function (d#224)
+/// trait-ready: unique decoder function (d#221)
 #[derive(Debug, Clone)]
 pub struct opentype_cmap_subtable<'input> {
 table_scope: View<'input>,
@@ -3214,7 +3224,7 @@ Decoder_opentype_encoding_record(p, table_view)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#223)
+/// trait-ready: unique decoder function (d#220)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_encoding_record<'input> {
 platform: u16,
@@ -3344,7 +3354,7 @@ Decoder_opentype_maxp_version1(p)
 }
 
 /// expected size: 26
-/// trait-ready: unique decoder function (d#221)
+/// trait-ready: unique decoder function (d#218)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_maxp_version1 {
 max_points: u16,
@@ -3421,7 +3431,7 @@ Decoder_opentype_name_name_record(p, storage_view)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#218)
+/// trait-ready: unique decoder function (d#215)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_name_name_record<'input> {
 platform: u16,
@@ -3443,7 +3453,7 @@ Decoder_opentype_name_lang_tag_record(p, storage_view)
 }
 
 /// expected size: 24
-/// trait-ready: unique decoder function (d#220)
+/// trait-ready: unique decoder function (d#217)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_name_lang_tag_record<'input> {
 length: u16,
@@ -3461,7 +3471,7 @@ Decoder_opentype_name_name_version_1(p, storage_view)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#219)
+/// trait-ready: unique decoder function (d#216)
 #[derive(Debug, Clone)]
 pub struct opentype_name_name_version_1<'input> {
 lang_tag_count: u16,
@@ -3589,7 +3599,7 @@ Decoder_opentype_post_pascal_string(p)
 }
 
 /// expected size: 16
-/// trait-ready: unique decoder function (d#217)
+/// trait-ready: unique decoder function (d#214)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_post_pascal_string<'input> {
 length: u8,
@@ -3607,7 +3617,7 @@ Decoder_opentype_post_version2(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#216)
+/// trait-ready: unique decoder function (d#213)
 #[derive(Debug, Clone)]
 pub struct opentype_post_version2<'input> {
 num_glyphs: u16,
@@ -3740,7 +3750,7 @@ Decoder_opentype_glyf_composite(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#214)
+/// trait-ready: unique decoder function (d#211)
 #[derive(Debug, Clone)]
 pub struct opentype_glyf_composite {
 glyphs: Vec<opentype_glyf_composite_acc_glyphs>,
@@ -3770,7 +3780,7 @@ Decoder_opentype_glyf_simple(p, n_contours)
 }
 
 /// expected size: 128
-/// trait-ready: unique decoder function (d#213)
+/// trait-ready: unique decoder function (d#210)
 #[derive(Debug, Clone)]
 pub struct opentype_glyf_simple {
 end_points_of_contour: Vec<u16>,
@@ -3794,7 +3804,7 @@ Decoder_opentype_glyf_description(p, n_contours)
 
 /// expected size: 136
 /// heap outcome (HeapStrategy { absolute_cutoff: None, variant_cutoff: Some(128) }): (InEnum { variants: [Noop, Noop, DirectHeap] }, Layout { size: 48, align: 8 (1 << 3) })
-/// trait-ready: unique decoder function (d#212)
+/// trait-ready: unique decoder function (d#209)
 #[derive(Debug, Clone)]
 pub enum opentype_glyf_description { Composite(opentype_glyf_composite), HeaderOnly, Simple(opentype_glyf_simple) }
 
@@ -3810,7 +3820,7 @@ Decoder_opentype_glyf_entry(p)
 
 /// expected size: 152
 /// heap outcome (HeapStrategy { absolute_cutoff: None, variant_cutoff: Some(128) }): (InRecord { fields: [Noop, Noop, Noop, Noop, Noop, InDef(InEnum { variants: [Noop, Noop, DirectHeap] })] }, Layout { size: 64, align: 8 (1 << 3) })
-/// trait-ready: unique decoder function (d#211)
+/// trait-ready: unique decoder function (d#208)
 #[derive(Debug, Clone)]
 pub struct opentype_glyf_entry {
 number_of_contours: i16,
@@ -3886,7 +3896,7 @@ Decoder_opentype_gasp_gasp_record(p, version)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#210)
+/// trait-ready: unique decoder function (d#207)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_gasp_gasp_record {
 range_max_ppem: u16,
@@ -4010,7 +4020,7 @@ Decoder_opentype_layout_base_coord(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#208)
+/// trait-ready: unique decoder function (d#205)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_layout_base_coord<'input> {
 table_scope: View<'input>,
@@ -4038,7 +4048,7 @@ Decoder_opentype_layout_base_values(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#205)
+/// trait-ready: unique decoder function (d#202)
 #[derive(Debug, Clone)]
 pub struct opentype_layout_base_values<'input> {
 table_scope: View<'input>,
@@ -4066,7 +4076,7 @@ Decoder_opentype_layout_feat_min_max(p, table_view)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#209)
+/// trait-ready: unique decoder function (d#206)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_layout_feat_min_max<'input> {
 feature_tag: u32,
@@ -4085,7 +4095,7 @@ Decoder_opentype_layout_min_max(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#206)
+/// trait-ready: unique decoder function (d#203)
 #[derive(Debug, Clone)]
 pub struct opentype_layout_min_max<'input> {
 table_scope: View<'input>,
@@ -4114,7 +4124,7 @@ Decoder_opentype_base_base_langsys(p, table_view)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#207)
+/// trait-ready: unique decoder function (d#204)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_base_base_langsys<'input> {
 base_lang_sys_tag: u32,
@@ -4132,7 +4142,7 @@ Decoder_opentype_layout_base_script(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#204)
+/// trait-ready: unique decoder function (d#201)
 #[derive(Debug, Clone)]
 pub struct opentype_layout_base_script<'input> {
 table_scope: View<'input>,
@@ -4161,7 +4171,7 @@ Decoder_opentype_base_base_script_record(p, table_view)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#203)
+/// trait-ready: unique decoder function (d#200)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_base_base_script_record<'input> {
 base_script_tag: u32,
@@ -4196,7 +4206,7 @@ Decoder_opentype_layout_axis_table(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#202)
+/// trait-ready: unique decoder function (d#199)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_layout_axis_table<'input> {
 table_scope: View<'input>,
@@ -4488,7 +4498,7 @@ Decoder_opentype_gdef_attach_point(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#201)
+/// trait-ready: unique decoder function (d#198)
 #[derive(Debug, Clone)]
 pub struct opentype_gdef_attach_point {
 point_count: u16,
@@ -4514,7 +4524,7 @@ Decoder_opentype_gdef_attach_list(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#195)
+/// trait-ready: unique decoder function (d#192)
 #[derive(Debug, Clone)]
 pub struct opentype_gdef_attach_list<'input> {
 list_scope: View<'input>,
@@ -4556,7 +4566,7 @@ Decoder_opentype_gdef_caret_value_data_format3(p, table_view)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#200)
+/// trait-ready: unique decoder function (d#197)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_gdef_caret_value_data_format3<'input> {
 table_scope: View<'input>,
@@ -4580,7 +4590,7 @@ Decoder_opentype_gdef_caret_value(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#199)
+/// trait-ready: unique decoder function (d#196)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_gdef_caret_value<'input> {
 format: u16,
@@ -4606,7 +4616,7 @@ Decoder_opentype_gdef_lig_glyph(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#198)
+/// trait-ready: unique decoder function (d#195)
 #[derive(Debug, Clone)]
 pub struct opentype_gdef_lig_glyph<'input> {
 table_scope: View<'input>,
@@ -4633,7 +4643,7 @@ Decoder_opentype_gdef_lig_caret_list(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#196)
+/// trait-ready: unique decoder function (d#193)
 #[derive(Debug, Clone)]
 pub struct opentype_gdef_lig_caret_list<'input> {
 list_scope: View<'input>,
@@ -4669,7 +4679,7 @@ Decoder_opentype_gdef_mark_glyph_set(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#197)
+/// trait-ready: unique decoder function (d#194)
 #[derive(Debug, Clone)]
 pub struct opentype_gdef_mark_glyph_set<'input> {
 table_scope: View<'input>,
@@ -5506,7 +5516,7 @@ x_placement: bool
 }
 
 /// expected size: 32
-/// trait-unready: multiple (6) decoders exist (d#{185, 186, 189, 190, 193, 194})
+/// trait-unready: multiple (3) decoders exist (d#{185, 190, 191})
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_layout_value_record {
 x_placement: Option<i16>,
@@ -5531,7 +5541,7 @@ Decoder_opentype_layout_pair_pos_pair_value_record(p, value_format1, value_forma
 }
 
 /// expected size: 66
-/// trait-ready: unique decoder function (d#188)
+/// trait-ready: unique decoder function (d#187)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_layout_pair_pos_pair_value_record {
 second_glyph: u16,
@@ -5551,7 +5561,7 @@ Decoder_opentype_layout_pair_pos_pair_set(p, value_format1, value_format2)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#187)
+/// trait-ready: unique decoder function (d#186)
 #[derive(Debug, Clone)]
 pub struct opentype_layout_pair_pos_pair_set<'input> {
 set_scope: View<'input>,
@@ -5812,7 +5822,7 @@ Decoder_opentype_layout_single_pos_format1(p, table_view)
 }
 
 /// expected size: 72
-/// trait-ready: unique decoder function (d#191)
+/// trait-ready: unique decoder function (d#188)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_layout_single_pos_format1<'input> {
 table_scope: View<'input>,
@@ -5832,7 +5842,7 @@ Decoder_opentype_layout_single_pos_format2(p, table_view)
 }
 
 /// expected size: 64
-/// trait-ready: unique decoder function (d#192)
+/// trait-ready: unique decoder function (d#189)
 #[derive(Debug, Clone)]
 pub struct opentype_layout_single_pos_format2<'input> {
 table_scope: View<'input>,
@@ -7767,7 +7777,7 @@ Decoder_png_ihdr_data(p)
 }
 
 /// expected size: 16
-/// trait-ready: unique decoder function (d#315)
+/// trait-ready: unique decoder function (d#312)
 #[derive(Debug, Copy, Clone)]
 pub struct png_ihdr_data {
 width: u32,
@@ -7790,7 +7800,7 @@ Decoder_png_ihdr(p)
 }
 
 /// expected size: 28
-/// trait-ready: unique decoder function (d#278)
+/// trait-ready: unique decoder function (d#275)
 #[derive(Debug, Copy, Clone)]
 pub struct png_ihdr {
 length: u32,
@@ -7833,7 +7843,7 @@ Decoder_png_bkgd(p, ihdr)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#297)
+/// trait-ready: unique decoder function (d#294)
 #[derive(Debug, Copy, Clone)]
 pub enum png_bkgd { color_type_0(png_trns_color_type_0), color_type_2(png_trns_color_type_2), color_type_3(png_trns_color_type_3), color_type_4(png_trns_color_type_0), color_type_6(png_trns_color_type_2) }
 
@@ -7848,7 +7858,7 @@ Decoder_png_chrm(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#289)
+/// trait-ready: unique decoder function (d#286)
 #[derive(Debug, Copy, Clone)]
 pub struct png_chrm {
 whitepoint_x: u32,
@@ -7872,7 +7882,7 @@ Decoder_png_gama(p)
 }
 
 /// expected size: 4
-/// trait-ready: unique decoder function (d#290)
+/// trait-ready: unique decoder function (d#287)
 #[derive(Debug, Copy, Clone)]
 pub struct png_gama {
 gamma: u32
@@ -7889,7 +7899,7 @@ Decoder_png_hist(p)
 }
 
 /// expected size: 24
-/// trait-ready: unique decoder function (d#298)
+/// trait-ready: unique decoder function (d#295)
 #[derive(Debug, Clone)]
 pub struct png_hist {
 histogram: Vec<u16>
@@ -7913,7 +7923,7 @@ fcheck: u8
 }
 
 /// expected size: 96
-/// trait-unready: multiple (4) decoders exist (d#{281, 304, 308, 313})
+/// trait-unready: multiple (4) decoders exist (d#{278, 301, 305, 310})
 #[derive(Debug, Clone)]
 pub struct zlib_main {
 compression_method_flags: zlib_main_compression_method_flags,
@@ -7934,7 +7944,7 @@ Decoder_png_iccp(p)
 }
 
 /// expected size: 128
-/// trait-ready: unique decoder function (d#291)
+/// trait-ready: unique decoder function (d#288)
 #[derive(Debug, Clone)]
 pub struct png_iccp {
 profile_name: Vec<u8>,
@@ -7963,7 +7973,7 @@ Decoder_png_itxt(p)
 }
 
 /// expected size: 120
-/// trait-ready: unique decoder function (d#294)
+/// trait-ready: unique decoder function (d#291)
 #[derive(Debug, Clone)]
 pub struct png_itxt {
 keyword: Vec<u8>,
@@ -7985,7 +7995,7 @@ Decoder_png_phys(p)
 }
 
 /// expected size: 12
-/// trait-ready: unique decoder function (d#299)
+/// trait-ready: unique decoder function (d#296)
 #[derive(Debug, Copy, Clone)]
 pub struct png_phys {
 pixels_per_unit_x: u32,
@@ -8038,7 +8048,7 @@ Decoder_png_sbit(p, ihdr)
 }
 
 /// expected size: 5
-/// trait-ready: unique decoder function (d#292)
+/// trait-ready: unique decoder function (d#289)
 #[derive(Debug, Copy, Clone)]
 pub enum png_sbit { color_type_0(png_sbit_color_type_0), color_type_2(png_sbit_color_type_2), color_type_3(png_sbit_color_type_2), color_type_4(png_sbit_color_type_4), color_type_6(png_sbit_color_type_6) }
 
@@ -8080,7 +8090,7 @@ Decoder_png_splt(p)
 }
 
 /// expected size: 64
-/// trait-ready: unique decoder function (d#300)
+/// trait-ready: unique decoder function (d#297)
 #[derive(Debug, Clone)]
 pub struct png_splt {
 palette_name: Vec<u8>,
@@ -8099,7 +8109,7 @@ Decoder_png_srgb(p)
 }
 
 /// expected size: 1
-/// trait-ready: unique decoder function (d#293)
+/// trait-ready: unique decoder function (d#290)
 #[derive(Debug, Copy, Clone)]
 pub struct png_srgb {
 rendering_intent: u8
@@ -8116,7 +8126,7 @@ Decoder_png_text(p)
 }
 
 /// expected size: 48
-/// trait-ready: unique decoder function (d#295)
+/// trait-ready: unique decoder function (d#292)
 #[derive(Debug, Clone)]
 pub struct png_text {
 keyword: Vec<u8>,
@@ -8134,7 +8144,7 @@ Decoder_png_time(p)
 }
 
 /// expected size: 8
-/// trait-ready: unique decoder function (d#301)
+/// trait-ready: unique decoder function (d#298)
 #[derive(Debug, Copy, Clone)]
 pub struct png_time {
 year: u16,
@@ -8156,7 +8166,7 @@ Decoder_png_trns(p, ihdr)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#288)
+/// trait-ready: unique decoder function (d#285)
 #[derive(Debug, Clone)]
 pub enum png_trns { color_type_0(png_trns_color_type_0), color_type_2(png_trns_color_type_2), color_type_3(Vec<png_trns_color_type_3>) }
 
@@ -8171,7 +8181,7 @@ Decoder_png_ztxt(p)
 }
 
 /// expected size: 56
-/// trait-ready: unique decoder function (d#296)
+/// trait-ready: unique decoder function (d#293)
 #[derive(Debug, Clone)]
 pub struct png_ztxt {
 keyword: Vec<u8>,
@@ -8195,7 +8205,7 @@ Decoder_png_chunk(p, ihdr)
 }
 
 /// expected size: 168
-/// trait-ready: unique decoder function (d#279)
+/// trait-ready: unique decoder function (d#276)
 #[derive(Debug, Clone)]
 pub struct png_chunk {
 length: u32,
@@ -8215,7 +8225,7 @@ Decoder_png_iend(p)
 }
 
 /// expected size: 12
-/// trait-ready: unique decoder function (d#282)
+/// trait-ready: unique decoder function (d#279)
 #[derive(Debug, Copy, Clone)]
 pub struct png_iend {
 length: u32,
@@ -8256,7 +8266,7 @@ Decoder_riff_chunk(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#277)
+/// trait-ready: unique decoder function (d#274)
 #[derive(Debug, Clone)]
 pub struct riff_chunk {
 tag: (u8, u8, u8, u8),
@@ -8276,7 +8286,7 @@ Decoder_riff_subchunks(p)
 }
 
 /// expected size: 32
-/// trait-ready: unique decoder function (d#275)
+/// trait-ready: unique decoder function (d#272)
 #[derive(Debug, Clone)]
 pub struct riff_subchunks {
 tag: (u8, u8, u8, u8),
@@ -8373,7 +8383,7 @@ Decoder_rle_main(p)
 pub enum rle_main { new_style(rle_new_style), old_style(rle_old_style) }
 
 /// expected size: 24
-/// trait-unready: multiple (3) decoders exist (d#{267, 269, 270})
+/// trait-unready: multiple (3) decoders exist (d#{264, 266, 267})
 #[derive(Debug, Clone)]
 pub struct tar_ascii_string_opt0_nonempty {
 string: Vec<u8>
@@ -8390,7 +8400,7 @@ Decoder_tar_header(p)
 }
 
 /// expected size: 328
-/// trait-ready: unique decoder function (d#266)
+/// trait-ready: unique decoder function (d#263)
 #[derive(Debug, Clone)]
 pub struct tar_header {
 name: tar_ascii_string_opt0_nonempty,
@@ -8423,7 +8433,7 @@ Decoder_tar_header_with_data(p)
 }
 
 /// expected size: 352
-/// trait-ready: unique decoder function (d#265)
+/// trait-ready: unique decoder function (d#262)
 #[derive(Debug, Clone)]
 pub struct tar_header_with_data {
 header: tar_header,
@@ -8431,7 +8441,7 @@ file: Vec<u8>
 }
 
 /// expected size: 24
-/// trait-unready: multiple (2) decoders exist (d#{12, 453})
+/// trait-unready: multiple (2) decoders exist (d#{12, 448})
 #[derive(Debug, Clone)]
 pub struct tar_main {
 contents: Vec<tar_header_with_data>
@@ -8480,7 +8490,7 @@ Decoder_png_idat(p)
 }
 
 /// expected size: 40
-/// trait-ready: unique decoder function (d#280)
+/// trait-ready: unique decoder function (d#277)
 #[derive(Debug, Clone)]
 pub struct png_idat {
 length: u32,
@@ -8508,7 +8518,7 @@ Decoder_opentype_glyph_description_simple_flags_raw(p)
 }
 
 /// expected size: 7
-/// trait-ready: unique decoder function (d#215)
+/// trait-ready: unique decoder function (d#212)
 #[derive(Debug, Copy, Clone)]
 pub struct opentype_glyph_description_simple_flags_raw {
 overlap_simple: bool,
@@ -8574,7 +8584,7 @@ expand_vertical: u8
 }
 
 /// expected size: 2
-/// trait-unready: multiple (2) decoders exist (d#{483, 488})
+/// trait-unready: multiple (2) decoders exist (d#{476, 481})
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_exp_data {
 expand_horizontal_vertical: jpeg_exp_data_expand_horizontal_vertical
@@ -8591,7 +8601,7 @@ Decoder_jpeg_exp(p)
 }
 
 /// expected size: 6
-/// trait-ready: unique decoder function (d#487)
+/// trait-ready: unique decoder function (d#480)
 #[derive(Debug, Copy, Clone)]
 pub struct jpeg_exp {
 marker: jpeg_soi,
@@ -8933,7 +8943,7 @@ return Err(ParseError::InsufficientRepeats);
 break
 }
 } else {
-let next_elem = (Decoder477(_input))?;
+let next_elem = (Decoder470(_input))?;
 accum.push(next_elem)
 }
 };
@@ -8989,13 +8999,13 @@ PResult::Ok(gif_main { header, logical_screen, blocks, trailer })
 
 /// d#5
 fn Decoder5(_input: &mut Parser<'_>) -> Result<Vec<tar_main>, ParseError> {
-let gzip_raw = (Decoder452(_input))?;
+let gzip_raw = (Decoder447(_input))?;
 let mut accum = Vec::new();
 for item in gzip_raw.clone() {
 let next_elem = {
 let mut buf_parser = Parser::new(slice_all(&item.data.inflate));
 let buf_input = &mut buf_parser;
-(Decoder453(buf_input))?
+(Decoder448(buf_input))?
 };
 accum.push(next_elem)
 };
@@ -9038,12 +9048,12 @@ Some((Decoder_gzip_fextra(_input))?)
 None
 };
 let fname = if header.file_flags.fname {
-Some((Decoder450(_input))?)
+Some((Decoder82(_input))?)
 } else {
 None
 };
 let fcomment = if header.file_flags.fcomment {
-Some((Decoder451(_input))?)
+Some((Decoder_gzip_fcomment(_input))?)
 } else {
 None
 };
@@ -9074,7 +9084,7 @@ PResult::Ok(accum)
 fn Decoder_jpeg_main(_input: &mut Parser<'_>) -> Result<jpeg_main, ParseError> {
 let soi = (Decoder_jpeg_soi(_input))?;
 let frame = (Decoder_jpeg_frame(_input))?;
-let eoi = (Decoder374(_input))?;
+let eoi = (Decoder371(_input))?;
 PResult::Ok(jpeg_main { soi, frame, eoi })
 }
 
@@ -9633,7 +9643,7 @@ x64
 }
 };
 let _is_advance = _input.advance_or_seek(tgt_offset)?;
-let ret = (Decoder237(_input, header.ident.data == 2u8, header.ident.class, header.phnum))?;
+let ret = (Decoder234(_input, header.ident.data == 2u8, header.ident.class, header.phnum))?;
 _input.close_peek_context()?;
 Some(ret)
 } else {
@@ -9650,7 +9660,7 @@ x64
 }
 };
 let _is_advance = _input.advance_or_seek(tgt_offset)?;
-let ret = (Decoder238(_input, header.ident.data == 2u8, header.ident.class, header.shnum))?;
+let ret = (Decoder235(_input, header.ident.data == 2u8, header.ident.class, header.shnum))?;
 _input.close_peek_context()?;
 Some(ret)
 } else {
@@ -9671,7 +9681,7 @@ x64
 }
 };
 let _is_advance = _input.advance_or_seek(tgt_offset)?;
-let ret = (Decoder239(_input, shdr.r#type, match shdr.size {
+let ret = (Decoder236(_input, shdr.r#type, match shdr.size {
 elf_types_elf_full::Full32(x32) => {
 x32 as u64
 },
@@ -11552,8 +11562,8 @@ inner
 return Err(ParseError::FalsifiedWhere(10102114574336663273u64));
 }
 };
-let created = (Decoder222(_input))?;
-let modified = (Decoder222(_input))?;
+let created = (Decoder219(_input))?;
+let modified = (Decoder219(_input))?;
 let glyph_extents = {
 let x_min = {
 let raw = {
@@ -19549,7 +19559,7 @@ Some((Decoder_opentype_layout_value_record(_input, value_format1, table_view))?)
 None
 };
 let value_record2 = if value_format2.x_placement || value_format2.y_placement || value_format2.x_advance || value_format2.y_advance || value_format2.x_placement_device || value_format2.y_placement_device || value_format2.x_advance_device || value_format2.y_advance_device {
-Some((Decoder186(_input, value_format2, table_view))?)
+Some((Decoder_opentype_layout_value_record(_input, value_format2, table_view))?)
 } else {
 None
 };
@@ -19638,87 +19648,6 @@ PResult::Ok(opentype_layout_value_record { x_placement, y_placement, x_advance,
 }
 
 /// d#186
-fn Decoder186<'input>(_input: &mut Parser<'input>, flags: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_value_record, ParseError> {
-let x_placement = if flags.x_placement {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let y_placement = if flags.y_placement {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let x_advance = if flags.x_advance {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let y_advance = if flags.y_advance {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let x_placement_device = if flags.x_placement_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let y_placement_device = if flags.y_placement_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let x_advance_device = if flags.x_advance_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let y_advance_device = if flags.y_advance_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-PResult::Ok(opentype_layout_value_record { x_placement, y_placement, x_advance, y_advance, x_placement_device, y_placement_device, x_advance_device, y_advance_device })
-}
-
-/// d#187
 fn Decoder_opentype_layout_pair_pos_pair_set<'input>(_input: &mut Parser<'input>, value_format1: opentype_layout_value_format_flags, value_format2: opentype_layout_value_format_flags) -> Result<opentype_layout_pair_pos_pair_set<'input>, ParseError> {
 let set_view = _input.view();
 let set_scope = set_view;
@@ -19737,188 +19666,26 @@ accum
 PResult::Ok(opentype_layout_pair_pos_pair_set { set_scope, pair_value_count, pair_value_records })
 }
 
-/// d#188
+/// d#187
 fn Decoder_opentype_layout_pair_pos_pair_value_record<'input>(_input: &mut Parser<'input>, value_format1: opentype_layout_value_format_flags, value_format2: opentype_layout_value_format_flags, set_view: View<'input>) -> Result<opentype_layout_pair_pos_pair_value_record, ParseError> {
 let second_glyph = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
 let value_record1 = if value_format1.x_placement || value_format1.y_placement || value_format1.x_advance || value_format1.y_advance || value_format1.x_placement_device || value_format1.y_placement_device || value_format1.x_advance_device || value_format1.y_advance_device {
-Some((Decoder189(_input, value_format1, set_view))?)
+Some((Decoder_opentype_layout_value_record(_input, value_format1, set_view))?)
 } else {
 None
 };
 let value_record2 = if value_format2.x_placement || value_format2.y_placement || value_format2.x_advance || value_format2.y_advance || value_format2.x_placement_device || value_format2.y_placement_device || value_format2.x_advance_device || value_format2.y_advance_device {
-Some((Decoder190(_input, value_format2, set_view))?)
+Some((Decoder_opentype_layout_value_record(_input, value_format2, set_view))?)
 } else {
 None
 };
 PResult::Ok(opentype_layout_pair_pos_pair_value_record { second_glyph, value_record1, value_record2 })
 }
 
-/// d#189
-fn Decoder189<'input>(_input: &mut Parser<'input>, flags: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_value_record, ParseError> {
-let x_placement = if flags.x_placement {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let y_placement = if flags.y_placement {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let x_advance = if flags.x_advance {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let y_advance = if flags.y_advance {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let x_placement_device = if flags.x_placement_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let y_placement_device = if flags.y_placement_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let x_advance_device = if flags.x_advance_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let y_advance_device = if flags.y_advance_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-PResult::Ok(opentype_layout_value_record { x_placement, y_placement, x_advance, y_advance, x_placement_device, y_placement_device, x_advance_device, y_advance_device })
-}
-
-/// d#190
-fn Decoder190<'input>(_input: &mut Parser<'input>, flags: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_value_record, ParseError> {
-let x_placement = if flags.x_placement {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let y_placement = if flags.y_placement {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let x_advance = if flags.x_advance {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let y_advance = if flags.y_advance {
-let raw = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-Some(raw as i16)
-} else {
-None
-};
-let x_placement_device = if flags.x_placement_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let y_placement_device = if flags.y_placement_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let x_advance_device = if flags.x_advance_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-let y_advance_device = if flags.y_advance_device {
-let offset = {
-let x = (_input.read_byte()?, _input.read_byte()?);
-u16be(x)
-};
-let _data = std::marker::PhantomData;
-Some(opentype_gdef_caret_value_data_format3_table { offset, _data })
-} else {
-None
-};
-PResult::Ok(opentype_layout_value_record { x_placement, y_placement, x_advance, y_advance, x_placement_device, y_placement_device, x_advance_device, y_advance_device })
-}
-
-/// d#191
+/// d#188
 fn Decoder_opentype_layout_single_pos_format1<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_layout_single_pos_format1<'input>, ParseError> {
 let table_scope = table_view;
 let coverage = {
@@ -19930,11 +19697,11 @@ let _data = std::marker::PhantomData;
 opentype_gdef_attach_list_coverage { offset, _data }
 };
 let value_format = (Decoder_opentype_layout_value_format_flags(_input))?;
-let value_record = (Decoder194(_input, value_format, table_view))?;
+let value_record = (Decoder191(_input, value_format, table_view))?;
 PResult::Ok(opentype_layout_single_pos_format1 { table_scope, coverage, value_format, value_record })
 }
 
-/// d#192
+/// d#189
 fn Decoder_opentype_layout_single_pos_format2<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_layout_single_pos_format2<'input>, ParseError> {
 let table_scope = table_view;
 let coverage = {
@@ -19953,7 +19720,7 @@ u16be(x)
 let value_records = {
 let mut accum = Vec::new();
 for _ in 0..value_count {
-let next_elem = (Decoder193(_input, value_format, table_view))?;
+let next_elem = (Decoder190(_input, value_format, table_view))?;
 accum.push(next_elem)
 };
 accum
@@ -19961,8 +19728,8 @@ accum
 PResult::Ok(opentype_layout_single_pos_format2 { table_scope, coverage, value_format, value_count, value_records })
 }
 
-/// d#193
-fn Decoder193<'input>(_input: &mut Parser<'input>, flags: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_value_record, ParseError> {
+/// d#190
+fn Decoder190<'input>(_input: &mut Parser<'input>, flags: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_value_record, ParseError> {
 let x_placement = if flags.x_placement {
 let raw = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -20042,8 +19809,8 @@ None
 PResult::Ok(opentype_layout_value_record { x_placement, y_placement, x_advance, y_advance, x_placement_device, y_placement_device, x_advance_device, y_advance_device })
 }
 
-/// d#194
-fn Decoder194<'input>(_input: &mut Parser<'input>, flags: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_value_record, ParseError> {
+/// d#191
+fn Decoder191<'input>(_input: &mut Parser<'input>, flags: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_value_record, ParseError> {
 let x_placement = if flags.x_placement {
 let raw = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -20123,7 +19890,7 @@ None
 PResult::Ok(opentype_layout_value_record { x_placement, y_placement, x_advance, y_advance, x_placement_device, y_placement_device, x_advance_device, y_advance_device })
 }
 
-/// d#195
+/// d#192
 fn Decoder_opentype_gdef_attach_list<'input>(_input: &mut Parser<'input>) -> Result<opentype_gdef_attach_list<'input>, ParseError> {
 let list_view = _input.view();
 let list_scope = list_view;
@@ -20157,7 +19924,7 @@ accum
 PResult::Ok(opentype_gdef_attach_list { list_scope, coverage, glyph_count, attach_point_offsets })
 }
 
-/// d#196
+/// d#193
 fn Decoder_opentype_gdef_lig_caret_list<'input>(_input: &mut Parser<'input>) -> Result<opentype_gdef_lig_caret_list<'input>, ParseError> {
 let list_view = _input.view();
 let list_scope = list_view;
@@ -20191,7 +19958,7 @@ accum
 PResult::Ok(opentype_gdef_lig_caret_list { list_scope, coverage, lig_glyph_count, lig_glyph_offsets })
 }
 
-/// d#197
+/// d#194
 fn Decoder_opentype_gdef_mark_glyph_set<'input>(_input: &mut Parser<'input>) -> Result<opentype_gdef_mark_glyph_set<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -20233,7 +20000,7 @@ accum
 PResult::Ok(opentype_gdef_mark_glyph_set { table_scope, format, mark_glyph_set_count, coverage })
 }
 
-/// d#198
+/// d#195
 fn Decoder_opentype_gdef_lig_glyph<'input>(_input: &mut Parser<'input>) -> Result<opentype_gdef_lig_glyph<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -20259,7 +20026,7 @@ accum
 PResult::Ok(opentype_gdef_lig_glyph { table_scope, caret_count, caret_values })
 }
 
-/// d#199
+/// d#196
 fn Decoder_opentype_gdef_caret_value<'input>(_input: &mut Parser<'input>) -> Result<opentype_gdef_caret_value<'input>, ParseError> {
 let table_view = _input.view();
 let format = {
@@ -20304,7 +20071,7 @@ return Err(ParseError::FailToken(4063460887563813446u64));
 PResult::Ok(opentype_gdef_caret_value { format, data })
 }
 
-/// d#200
+/// d#197
 fn Decoder_opentype_gdef_caret_value_data_format3<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_gdef_caret_value_data_format3<'input>, ParseError> {
 let table_scope = table_view;
 let coordinate = {
@@ -20325,7 +20092,7 @@ opentype_gdef_caret_value_data_format3_table { offset, _data }
 PResult::Ok(opentype_gdef_caret_value_data_format3 { table_scope, coordinate, table })
 }
 
-/// d#201
+/// d#198
 fn Decoder_opentype_gdef_attach_point(_input: &mut Parser<'_>) -> Result<opentype_gdef_attach_point, ParseError> {
 let point_count = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -20345,7 +20112,7 @@ accum
 PResult::Ok(opentype_gdef_attach_point { point_count, point_indices })
 }
 
-/// d#202
+/// d#199
 fn Decoder_opentype_layout_axis_table<'input>(_input: &mut Parser<'input>) -> Result<opentype_layout_axis_table<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -20368,7 +20135,7 @@ opentype_layout_axis_table_base_script_list_offset { offset, _data }
 PResult::Ok(opentype_layout_axis_table { table_scope, base_tag_list_offset, base_script_list_offset })
 }
 
-/// d#203
+/// d#200
 fn Decoder_opentype_base_base_script_record<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_base_base_script_record<'input>, ParseError> {
 let base_script_tag = (Decoder67(_input))?;
 let base_script = {
@@ -20382,7 +20149,7 @@ opentype_base_base_script_record_base_script { offset, _data }
 PResult::Ok(opentype_base_base_script_record { base_script_tag, base_script })
 }
 
-/// d#204
+/// d#201
 fn Decoder_opentype_layout_base_script<'input>(_input: &mut Parser<'input>) -> Result<opentype_layout_base_script<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -20417,7 +20184,7 @@ accum
 PResult::Ok(opentype_layout_base_script { table_scope, base_values_offset, default_min_max_offset, base_lang_sys_count, base_lang_sys_records })
 }
 
-/// d#205
+/// d#202
 fn Decoder_opentype_layout_base_values<'input>(_input: &mut Parser<'input>) -> Result<opentype_layout_base_values<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -20447,7 +20214,7 @@ accum
 PResult::Ok(opentype_layout_base_values { table_scope, default_baseline_index, base_coord_count, base_coord_offsets })
 }
 
-/// d#206
+/// d#203
 fn Decoder_opentype_layout_min_max<'input>(_input: &mut Parser<'input>) -> Result<opentype_layout_min_max<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -20482,7 +20249,7 @@ accum
 PResult::Ok(opentype_layout_min_max { table_scope, min_coord_offset, max_coord_offset, feat_min_max_count, feat_min_max_records })
 }
 
-/// d#207
+/// d#204
 fn Decoder_opentype_base_base_langsys<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_base_base_langsys<'input>, ParseError> {
 let base_lang_sys_tag = (Decoder67(_input))?;
 let min_max = {
@@ -20496,7 +20263,7 @@ opentype_layout_base_script_default_min_max_offset { offset, _data }
 PResult::Ok(opentype_base_base_langsys { base_lang_sys_tag, min_max })
 }
 
-/// d#208
+/// d#205
 fn Decoder_opentype_layout_base_coord<'input>(_input: &mut Parser<'input>) -> Result<opentype_layout_base_coord<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -20553,7 +20320,7 @@ return Err(ParseError::FailToken(10243418979491025991u64));
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
 }
 
-/// d#209
+/// d#206
 fn Decoder_opentype_layout_feat_min_max<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_layout_feat_min_max<'input>, ParseError> {
 let feature_tag = (Decoder67(_input))?;
 let min_coord_offset = {
@@ -20575,7 +20342,7 @@ opentype_layout_base_values_base_coord_offsets { offset, _data }
 PResult::Ok(opentype_layout_feat_min_max { feature_tag, min_coord_offset, max_coord_offset })
 }
 
-/// d#210
+/// d#207
 fn Decoder_opentype_gasp_gasp_record(_input: &mut Parser<'_>, version: u16) -> Result<opentype_gasp_gasp_record, ParseError> {
 let range_max_ppem = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -20617,7 +20384,7 @@ return Err(ParseError::FailToken(6726475111737435495u64));
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
 }
 
-/// d#211
+/// d#208
 fn Decoder_opentype_glyf_entry(_input: &mut Parser<'_>) -> Result<opentype_glyf_entry, ParseError> {
 let number_of_contours = {
 let raw = {
@@ -20658,7 +20425,7 @@ let description = (Decoder_opentype_glyf_description(_input, number_of_contours)
 PResult::Ok(opentype_glyf_entry { number_of_contours, x_min, y_min, x_max, y_max, description })
 }
 
-/// d#212
+/// d#209
 fn Decoder_opentype_glyf_description(_input: &mut Parser<'_>, n_contours: i16) -> Result<opentype_glyf_description, ParseError> {
 PResult::Ok(match n_contours {
 0 => {
@@ -20677,7 +20444,7 @@ opentype_glyf_description::Composite(inner)
 })
 }
 
-/// d#213
+/// d#210
 fn Decoder_opentype_glyf_simple(_input: &mut Parser<'_>, n_contours: u16) -> Result<opentype_glyf_simple, ParseError> {
 let end_points_of_contour = {
 let mut accum = Vec::new();
@@ -20828,7 +20595,7 @@ accum
 PResult::Ok(opentype_glyf_simple { end_points_of_contour, instruction_length, instructions, number_of_coordinates, flags, x_coordinates, y_coordinates })
 }
 
-/// d#214
+/// d#211
 fn Decoder_opentype_glyf_composite(_input: &mut Parser<'_>) -> Result<opentype_glyf_composite, ParseError> {
 let acc_glyphs = {
 let mut seq: Vec<opentype_glyf_composite_acc_glyphs> = Vec::new();
@@ -21082,7 +20849,7 @@ false => {
 PResult::Ok(opentype_glyf_composite { glyphs, instructions })
 }
 
-/// d#215
+/// d#212
 fn Decoder_opentype_glyph_description_simple_flags_raw(_input: &mut Parser<'_>) -> Result<opentype_glyph_description_simple_flags_raw, ParseError> {
 let _packed_bits = _input.read_byte()?;
 let overlap_simple = _packed_bits >> 6u8 & 1u8 > 0u8;
@@ -21095,7 +20862,7 @@ let on_curve_point = _packed_bits & 1u8 > 0u8;
 PResult::Ok(opentype_glyph_description_simple_flags_raw { overlap_simple, y_is_same_or_positive_y_short_vector, x_is_same_or_positive_x_short_vector, repeat_flag, y_short_vector, x_short_vector, on_curve_point })
 }
 
-/// d#216
+/// d#213
 fn Decoder_opentype_post_version2<'input>(_input: &mut Parser<'input>) -> Result<opentype_post_version2<'input>, ParseError> {
 let num_glyphs = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21153,7 +20920,7 @@ accum
 PResult::Ok(opentype_post_version2 { num_glyphs, glyph_name_index, string_data })
 }
 
-/// d#217
+/// d#214
 fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> Result<opentype_post_pascal_string<'input>, ParseError> {
 let length = _input.read_byte()?;
 let string = {
@@ -21163,7 +20930,7 @@ pascal_string_data.read_len(length as usize)?
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
 
-/// d#218
+/// d#215
 fn Decoder_opentype_name_name_record<'input>(_input: &mut Parser<'input>, storage_view: View<'input>) -> Result<opentype_name_name_record<'input>, ParseError> {
 let platform = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21196,7 +20963,7 @@ opentype_name_name_record_string { offset, data }
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
 }
 
-/// d#219
+/// d#216
 fn Decoder_opentype_name_name_version_1<'input>(_input: &mut Parser<'input>, storage_view: View<'input>) -> Result<opentype_name_name_version_1<'input>, ParseError> {
 let lang_tag_count = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21213,7 +20980,7 @@ accum
 PResult::Ok(opentype_name_name_version_1 { lang_tag_count, lang_tag_records })
 }
 
-/// d#220
+/// d#217
 fn Decoder_opentype_name_lang_tag_record<'input>(_input: &mut Parser<'input>, storage_view: View<'input>) -> Result<opentype_name_lang_tag_record<'input>, ParseError> {
 let length = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21230,7 +20997,7 @@ opentype_name_name_record_string { offset, data }
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
 }
 
-/// d#221
+/// d#218
 fn Decoder_opentype_maxp_version1(_input: &mut Parser<'_>) -> Result<opentype_maxp_version1, ParseError> {
 let max_points = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21309,8 +21076,8 @@ return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
 }
 
-/// d#222
-fn Decoder222(_input: &mut Parser<'_>) -> Result<i64, ParseError> {
+/// d#219
+fn Decoder219(_input: &mut Parser<'_>) -> Result<i64, ParseError> {
 let raw = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
@@ -21318,7 +21085,7 @@ u64be(x)
 PResult::Ok(raw as i64)
 }
 
-/// d#223
+/// d#220
 fn Decoder_opentype_encoding_record<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_encoding_record<'input>, ParseError> {
 let platform = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -21339,7 +21106,7 @@ opentype_encoding_record_subtable { offset, _data }
 PResult::Ok(opentype_encoding_record { platform, encoding, subtable })
 }
 
-/// d#224
+/// d#221
 fn Decoder_opentype_cmap_subtable<'input>(_input: &mut Parser<'input>, _platform: u16) -> Result<opentype_cmap_subtable<'input>, ParseError> {
 let table_view = _input.view();
 let table_scope = table_view;
@@ -21389,7 +21156,7 @@ opentype_cmap_subtable_data::Format12(inner)
 },
 
 13u16 => {
-let inner = (Decoder232(_input, _platform))?;
+let inner = (Decoder229(_input, _platform))?;
 opentype_cmap_subtable_data::Format13(inner)
 },
 
@@ -21405,7 +21172,7 @@ return Err(ParseError::ExcludedBranch(13281230340934385869u64));
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
 }
 
-/// d#225
+/// d#222
 fn Decoder_opentype_cmap_subtable_format0(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format0, ParseError> {
 let length = {
 _input.open_peek_context();
@@ -21473,7 +21240,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#226
+/// d#223
 fn Decoder_opentype_cmap_subtable_format2(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format2, ParseError> {
 let length = {
 _input.open_peek_context();
@@ -21650,7 +21417,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#227
+/// d#224
 fn Decoder_opentype_cmap_subtable_format4(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format4, ParseError> {
 let length = {
 _input.open_peek_context();
@@ -21817,7 +21584,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#228
+/// d#225
 fn Decoder_opentype_cmap_subtable_format6(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format6, ParseError> {
 let _format = {
 let inner = {
@@ -21865,7 +21632,7 @@ accum
 PResult::Ok(opentype_cmap_subtable_format6 { _format, length, language, first_code, entry_count, glyph_id_array })
 }
 
-/// d#229
+/// d#226
 fn Decoder_opentype_cmap_subtable_format8(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format8, ParseError> {
 let length = {
 _input.open_peek_context();
@@ -21977,7 +21744,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#230
+/// d#227
 fn Decoder_opentype_cmap_subtable_format10(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format10, ParseError> {
 let length = {
 _input.open_peek_context();
@@ -22088,7 +21855,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#231
+/// d#228
 fn Decoder_opentype_cmap_subtable_format12(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format12, ParseError> {
 let length = {
 _input.open_peek_context();
@@ -22192,8 +21959,8 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#232
-fn Decoder232(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format12, ParseError> {
+/// d#229
+fn Decoder229(_input: &mut Parser<'_>, _platform: u16) -> Result<opentype_cmap_subtable_format12, ParseError> {
 let length = {
 _input.open_peek_context();
 let ret = ((|| {
@@ -22296,7 +22063,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#233
+/// d#230
 fn Decoder_opentype_cmap_subtable_format14<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_cmap_subtable_format14, ParseError> {
 let length = {
 _input.open_peek_context();
@@ -22364,7 +22131,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#234
+/// d#231
 fn Decoder_opentype_variation_selector<'input>(_input: &mut Parser<'input>, table_view: View<'input>) -> Result<opentype_variation_selector, ParseError> {
 let var_selector = {
 let x = (0u8, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -22389,7 +22156,7 @@ opentype_variation_selector_non_default_uvs_offset { offset, _data }
 PResult::Ok(opentype_variation_selector { var_selector, default_uvs_offset, non_default_uvs_offset })
 }
 
-/// d#235
+/// d#232
 fn Decoder_opentype_types_sequential_map_record(_input: &mut Parser<'_>) -> Result<opentype_types_sequential_map_record, ParseError> {
 let start_char_code = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -22406,7 +22173,7 @@ u32be(x)
 PResult::Ok(opentype_types_sequential_map_record { start_char_code, end_char_code, start_glyph_id })
 }
 
-/// d#236
+/// d#233
 fn Decoder_elf_header(_input: &mut Parser<'_>) -> Result<elf_header, ParseError> {
 let ident = {
 let sz = 16u32 as usize;
@@ -22415,24 +22182,24 @@ let ret = (Decoder_elf_header_ident(_input))?;
 _input.end_slice()?;
 ret
 };
-let r#type = (Decoder256(_input, ident.data == 2u8))?;
-let machine = (Decoder257(_input, ident.data == 2u8))?;
-let version = (Decoder258(_input, ident.data == 2u8))?;
+let r#type = (Decoder253(_input, ident.data == 2u8))?;
+let machine = (Decoder254(_input, ident.data == 2u8))?;
+let version = (Decoder255(_input, ident.data == 2u8))?;
 let entry = (Decoder_elf_types_elf_addr(_input, ident.data == 2u8, ident.class))?;
 let phoff = (Decoder_elf_types_elf_off(_input, ident.data == 2u8, ident.class))?;
 let shoff = (Decoder_elf_types_elf_off(_input, ident.data == 2u8, ident.class))?;
-let flags = (Decoder241(_input, ident.data == 2u8))?;
-let ehsize = (Decoder259(_input, ident.data == 2u8))?;
-let phentsize = (Decoder259(_input, ident.data == 2u8))?;
-let phnum = (Decoder259(_input, ident.data == 2u8))?;
-let shentsize = (Decoder259(_input, ident.data == 2u8))?;
-let shnum = (Decoder259(_input, ident.data == 2u8))?;
-let shstrndx = (Decoder259(_input, ident.data == 2u8))?;
+let flags = (Decoder238(_input, ident.data == 2u8))?;
+let ehsize = (Decoder256(_input, ident.data == 2u8))?;
+let phentsize = (Decoder256(_input, ident.data == 2u8))?;
+let phnum = (Decoder256(_input, ident.data == 2u8))?;
+let shentsize = (Decoder256(_input, ident.data == 2u8))?;
+let shnum = (Decoder256(_input, ident.data == 2u8))?;
+let shstrndx = (Decoder256(_input, ident.data == 2u8))?;
 PResult::Ok(elf_header { ident, r#type, machine, version, entry, phoff, shoff, flags, ehsize, phentsize, phnum, shentsize, shnum, shstrndx })
 }
 
-/// d#237
-fn Decoder237(_input: &mut Parser<'_>, is_be: bool, class: u8, phnum: u16) -> Result<Vec<elf_phdr>, ParseError> {
+/// d#234
+fn Decoder234(_input: &mut Parser<'_>, is_be: bool, class: u8, phnum: u16) -> Result<Vec<elf_phdr>, ParseError> {
 let mut accum = Vec::new();
 for _ in 0..phnum {
 let next_elem = (Decoder_elf_phdr(_input, is_be, class))?;
@@ -22441,8 +22208,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#238
-fn Decoder238(_input: &mut Parser<'_>, is_be: bool, class: u8, shnum: u16) -> Result<Vec<elf_shdr>, ParseError> {
+/// d#235
+fn Decoder235(_input: &mut Parser<'_>, is_be: bool, class: u8, shnum: u16) -> Result<Vec<elf_shdr>, ParseError> {
 let mut accum = Vec::new();
 for _ in 0..shnum {
 let next_elem = (Decoder_elf_shdr(_input, is_be, class))?;
@@ -22451,8 +22218,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#239
-fn Decoder239(_input: &mut Parser<'_>, r#type: u32, size: u64) -> Result<Vec<u8>, ParseError> {
+/// d#236
+fn Decoder236(_input: &mut Parser<'_>, r#type: u32, size: u64) -> Result<Vec<u8>, ParseError> {
 PResult::Ok({
 let _ = r#type;
 let mut accum = Vec::new();
@@ -22464,23 +22231,23 @@ accum
 })
 }
 
-/// d#240
+/// d#237
 fn Decoder_elf_shdr(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<elf_shdr, ParseError> {
-let name = (Decoder241(_input, is_be))?;
-let r#type = (Decoder242(_input, is_be))?;
+let name = (Decoder238(_input, is_be))?;
+let r#type = (Decoder239(_input, is_be))?;
 let flags = (Decoder_elf_types_elf_full(_input, is_be, class))?;
 let addr = (Decoder_elf_types_elf_addr(_input, is_be, class))?;
 let offset = (Decoder_elf_types_elf_off(_input, is_be, class))?;
 let size = (Decoder_elf_types_elf_full(_input, is_be, class))?;
-let link = (Decoder241(_input, is_be))?;
-let info = (Decoder246(_input, is_be))?;
+let link = (Decoder238(_input, is_be))?;
+let info = (Decoder243(_input, is_be))?;
 let addralign = (Decoder_elf_types_elf_full(_input, is_be, class))?;
 let entsize = (Decoder_elf_types_elf_full(_input, is_be, class))?;
 PResult::Ok(elf_shdr { name, r#type, flags, addr, offset, size, link, info, addralign, entsize })
 }
 
-/// d#241
-fn Decoder241(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
+/// d#238
+fn Decoder238(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
 _input.skip_align(4)?;
 PResult::Ok(match is_be {
 true => {
@@ -22495,9 +22262,9 @@ u32le(x)
 })
 }
 
-/// d#242
-fn Decoder242(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
-let inner = (Decoder241(_input, is_be))?;
+/// d#239
+fn Decoder239(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
+let inner = (Decoder238(_input, is_be))?;
 let is_valid = {
 let sh_type = inner;
 matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
@@ -22509,16 +22276,16 @@ return Err(ParseError::FalsifiedWhere(16096650375442290768u64));
 })
 }
 
-/// d#243
+/// d#240
 fn Decoder_elf_types_elf_full(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<elf_types_elf_full, ParseError> {
 PResult::Ok(match class {
 1u8 => {
-let inner = (Decoder241(_input, is_be))?;
+let inner = (Decoder238(_input, is_be))?;
 elf_types_elf_full::Full32(inner)
 },
 
 2u8 => {
-let inner = (Decoder251(_input, is_be))?;
+let inner = (Decoder248(_input, is_be))?;
 elf_types_elf_full::Full64(inner)
 },
 
@@ -22528,16 +22295,16 @@ return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 })
 }
 
-/// d#244
+/// d#241
 fn Decoder_elf_types_elf_addr(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<elf_types_elf_addr, ParseError> {
 PResult::Ok(match class {
 1u8 => {
-let inner = (Decoder249(_input, is_be))?;
+let inner = (Decoder246(_input, is_be))?;
 elf_types_elf_addr::Addr32(inner)
 },
 
 2u8 => {
-let inner = (Decoder250(_input, is_be))?;
+let inner = (Decoder247(_input, is_be))?;
 elf_types_elf_addr::Addr64(inner)
 },
 
@@ -22547,16 +22314,16 @@ return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 })
 }
 
-/// d#245
+/// d#242
 fn Decoder_elf_types_elf_off(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<elf_types_elf_off, ParseError> {
 PResult::Ok(match class {
 1u8 => {
-let inner = (Decoder247(_input, is_be))?;
+let inner = (Decoder244(_input, is_be))?;
 elf_types_elf_off::Off32(inner)
 },
 
 2u8 => {
-let inner = (Decoder248(_input, is_be))?;
+let inner = (Decoder245(_input, is_be))?;
 elf_types_elf_off::Off64(inner)
 },
 
@@ -22566,13 +22333,13 @@ return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 })
 }
 
-/// d#246
-fn Decoder246(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
-Decoder241(_input, is_be)
+/// d#243
+fn Decoder243(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
+Decoder238(_input, is_be)
 }
 
-/// d#247
-fn Decoder247(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
+/// d#244
+fn Decoder244(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
 _input.skip_align(4)?;
 PResult::Ok(match is_be {
 true => {
@@ -22587,8 +22354,8 @@ u32le(x)
 })
 }
 
-/// d#248
-fn Decoder248(_input: &mut Parser<'_>, is_be: bool) -> Result<u64, ParseError> {
+/// d#245
+fn Decoder245(_input: &mut Parser<'_>, is_be: bool) -> Result<u64, ParseError> {
 _input.skip_align(8)?;
 PResult::Ok(match is_be {
 true => {
@@ -22603,8 +22370,8 @@ u64le(x)
 })
 }
 
-/// d#249
-fn Decoder249(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
+/// d#246
+fn Decoder246(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
 _input.skip_align(4)?;
 PResult::Ok(match is_be {
 true => {
@@ -22619,8 +22386,8 @@ u32le(x)
 })
 }
 
-/// d#250
-fn Decoder250(_input: &mut Parser<'_>, is_be: bool) -> Result<u64, ParseError> {
+/// d#247
+fn Decoder247(_input: &mut Parser<'_>, is_be: bool) -> Result<u64, ParseError> {
 _input.skip_align(8)?;
 PResult::Ok(match is_be {
 true => {
@@ -22635,8 +22402,8 @@ u64le(x)
 })
 }
 
-/// d#251
-fn Decoder251(_input: &mut Parser<'_>, is_be: bool) -> Result<u64, ParseError> {
+/// d#248
+fn Decoder248(_input: &mut Parser<'_>, is_be: bool) -> Result<u64, ParseError> {
 _input.skip_align(8)?;
 PResult::Ok(match is_be {
 true => {
@@ -22651,39 +22418,39 @@ u64le(x)
 })
 }
 
-/// d#252
+/// d#249
 fn Decoder_elf_phdr(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<elf_phdr, ParseError> {
-let r#type = (Decoder241(_input, is_be))?;
-let flags64 = (Decoder253(_input, is_be, class))?;
+let r#type = (Decoder238(_input, is_be))?;
+let flags64 = (Decoder250(_input, is_be, class))?;
 let offset = (Decoder_elf_types_elf_off(_input, is_be, class))?;
 let vaddr = (Decoder_elf_types_elf_addr(_input, is_be, class))?;
 let paddr = (Decoder_elf_types_elf_addr(_input, is_be, class))?;
 let filesz = (Decoder_elf_types_elf_full(_input, is_be, class))?;
 let memsz = (Decoder_elf_types_elf_full(_input, is_be, class))?;
-let flags32 = (Decoder254(_input, is_be, class))?;
+let flags32 = (Decoder251(_input, is_be, class))?;
 let align = (Decoder_elf_types_elf_full(_input, is_be, class))?;
 PResult::Ok(elf_phdr { r#type, flags64, offset, vaddr, paddr, filesz, memsz, flags32, align })
 }
 
-/// d#253
-fn Decoder253(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<Option<u32>, ParseError> {
+/// d#250
+fn Decoder250(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<Option<u32>, ParseError> {
 PResult::Ok(if class == 2u8 {
-Some((Decoder241(_input, is_be))?)
+Some((Decoder238(_input, is_be))?)
 } else {
 None
 })
 }
 
-/// d#254
-fn Decoder254(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<Option<u32>, ParseError> {
+/// d#251
+fn Decoder251(_input: &mut Parser<'_>, is_be: bool, class: u8) -> Result<Option<u32>, ParseError> {
 PResult::Ok(if class == 1u8 {
-Some((Decoder241(_input, is_be))?)
+Some((Decoder238(_input, is_be))?)
 } else {
 None
 })
 }
 
-/// d#255
+/// d#252
 fn Decoder_elf_header_ident(_input: &mut Parser<'_>) -> Result<elf_header_ident, ParseError> {
 {
 let arg0 = {
@@ -22720,11 +22487,11 @@ return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 };
 (arg0, arg1, arg2, arg3)
 };
-let class = (Decoder260(_input))?;
-let data = (Decoder261(_input))?;
-let version = (Decoder262(_input))?;
-let os_abi = (Decoder263(_input))?;
-let abi_version = (Decoder264(_input))?;
+let class = (Decoder257(_input))?;
+let data = (Decoder258(_input))?;
+let version = (Decoder259(_input))?;
+let os_abi = (Decoder260(_input))?;
+let abi_version = (Decoder261(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -22764,9 +22531,9 @@ accum
 PResult::Ok(elf_header_ident { class, data, version, os_abi, abi_version })
 }
 
-/// d#256
-fn Decoder256(_input: &mut Parser<'_>, is_be: bool) -> Result<u16, ParseError> {
-let inner = (Decoder259(_input, is_be))?;
+/// d#253
+fn Decoder253(_input: &mut Parser<'_>, is_be: bool) -> Result<u16, ParseError> {
+let inner = (Decoder256(_input, is_be))?;
 let is_valid = {
 let r#type = inner;
 matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
@@ -22778,14 +22545,14 @@ return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
 })
 }
 
-/// d#257
-fn Decoder257(_input: &mut Parser<'_>, is_be: bool) -> Result<u16, ParseError> {
-Decoder259(_input, is_be)
+/// d#254
+fn Decoder254(_input: &mut Parser<'_>, is_be: bool) -> Result<u16, ParseError> {
+Decoder256(_input, is_be)
 }
 
-/// d#258
-fn Decoder258(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
-let inner = (Decoder241(_input, is_be))?;
+/// d#255
+fn Decoder255(_input: &mut Parser<'_>, is_be: bool) -> Result<u32, ParseError> {
+let inner = (Decoder238(_input, is_be))?;
 let is_valid = {
 let x = inner;
 x <= 1u32
@@ -22797,8 +22564,8 @@ return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
 })
 }
 
-/// d#259
-fn Decoder259(_input: &mut Parser<'_>, is_be: bool) -> Result<u16, ParseError> {
+/// d#256
+fn Decoder256(_input: &mut Parser<'_>, is_be: bool) -> Result<u16, ParseError> {
 _input.skip_align(2)?;
 PResult::Ok(match is_be {
 true => {
@@ -22813,8 +22580,8 @@ u16le(x)
 })
 }
 
-/// d#260
-fn Decoder260(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#257
+fn Decoder257(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 let inner = _input.read_byte()?;
 let is_valid = {
 let x = inner;
@@ -22827,8 +22594,8 @@ return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
 })
 }
 
-/// d#261
-fn Decoder261(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#258
+fn Decoder258(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 let inner = _input.read_byte()?;
 let is_valid = {
 let x = inner;
@@ -22841,8 +22608,8 @@ return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
 })
 }
 
-/// d#262
-fn Decoder262(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#259
+fn Decoder259(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 let inner = _input.read_byte()?;
 let is_valid = {
 let x = inner;
@@ -22855,17 +22622,17 @@ return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
 })
 }
 
-/// d#263
-fn Decoder263(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#260
+fn Decoder260(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 _input.read_byte()
 }
 
-/// d#264
-fn Decoder264(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#261
+fn Decoder261(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 _input.read_byte()
 }
 
-/// d#265
+/// d#262
 fn Decoder_tar_header_with_data(_input: &mut Parser<'_>) -> Result<tar_header_with_data, ParseError> {
 let header = (Decoder_tar_header(_input))?;
 let file = {
@@ -22880,7 +22647,7 @@ _input.skip_align(512)?;
 PResult::Ok(tar_header_with_data { header, file })
 }
 
-/// d#266
+/// d#263
 fn Decoder_tar_header(_input: &mut Parser<'_>) -> Result<tar_header, ParseError> {
 let sz = 512u32 as usize;
 _input.start_slice(sz)?;
@@ -22935,7 +22702,7 @@ break
 };
 accum
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23020,7 +22787,7 @@ break
 };
 accum
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23105,7 +22872,7 @@ break
 };
 accum
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23270,7 +23037,7 @@ return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 };
 try_sub!(bit as u8, 48u8, 13311790038092155306u64)
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
 tar_header_size_lhs { value }
 };
@@ -23319,7 +23086,7 @@ break
 };
 accum
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23404,7 +23171,7 @@ break
 };
 accum
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23450,7 +23217,7 @@ let typeflag = _input.read_byte()?;
 let linkname = {
 let sz = 100u16 as usize;
 _input.start_slice(sz)?;
-let ret = (Decoder269(_input))?;
+let ret = (Decoder266(_input))?;
 _input.end_slice()?;
 ret
 };
@@ -23527,14 +23294,14 @@ return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 let uname = {
 let sz = 32u16 as usize;
 _input.start_slice(sz)?;
-let ret = (Decoder270(_input))?;
+let ret = (Decoder267(_input))?;
 _input.end_slice()?;
 ret
 };
 let gname = {
 let sz = 32u16 as usize;
 _input.start_slice(sz)?;
-let ret = (Decoder270(_input))?;
+let ret = (Decoder267(_input))?;
 _input.end_slice()?;
 ret
 };
@@ -23581,7 +23348,7 @@ break
 };
 accum
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23666,7 +23433,7 @@ break
 };
 accum
 };
-(Decoder268(_input))?;
+(Decoder265(_input))?;
 {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23711,7 +23478,7 @@ ret
 let prefix = {
 let sz = 155u16 as usize;
 _input.start_slice(sz)?;
-let ret = (Decoder269(_input))?;
+let ret = (Decoder266(_input))?;
 _input.end_slice()?;
 ret
 };
@@ -23736,7 +23503,7 @@ _input.end_slice()?;
 PResult::Ok(ret)
 }
 
-/// d#267
+/// d#264
 fn Decoder_tar_ascii_string_opt0_nonempty(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
@@ -23827,8 +23594,8 @@ accum
 PResult::Ok(tar_ascii_string_opt0_nonempty { string })
 }
 
-/// d#268
-fn Decoder268(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#265
+fn Decoder265(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
@@ -23837,8 +23604,8 @@ return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 })
 }
 
-/// d#269
-fn Decoder269(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
+/// d#266
+fn Decoder266(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -23921,8 +23688,8 @@ accum
 PResult::Ok(tar_ascii_string_opt0_nonempty { string })
 }
 
-/// d#270
-fn Decoder270(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
+/// d#267
+fn Decoder267(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -24008,7 +23775,7 @@ accum
 PResult::Ok(tar_ascii_string_opt0_nonempty { string })
 }
 
-/// d#271
+/// d#268
 fn Decoder_tiff_byte_order(_input: &mut Parser<'_>) -> Result<tiff_byte_order, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -24077,21 +23844,21 @@ return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 })
 }
 
-/// d#272
+/// d#269
 fn Decoder_tiff_ifd_le(_input: &mut Parser<'_>, byte_order: tiff_byte_order) -> Result<tiff_ifd_le, ParseError> {
 PResult::Ok(match byte_order {
 tiff_byte_order::le(..) => {
-(Decoder273(_input))?
+(Decoder270(_input))?
 },
 
 tiff_byte_order::be(..) => {
-(Decoder274(_input))?
+(Decoder271(_input))?
 }
 })
 }
 
-/// d#273
-fn Decoder273(_input: &mut Parser<'_>) -> Result<tiff_ifd_le, ParseError> {
+/// d#270
+fn Decoder270(_input: &mut Parser<'_>) -> Result<tiff_ifd_le, ParseError> {
 let num_fields = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16le(x)
@@ -24154,8 +23921,8 @@ accum
 PResult::Ok(tiff_ifd_le { num_fields, fields, next_ifd_offset, next_ifd })
 }
 
-/// d#274
-fn Decoder274(_input: &mut Parser<'_>) -> Result<tiff_ifd_le, ParseError> {
+/// d#271
+fn Decoder271(_input: &mut Parser<'_>) -> Result<tiff_ifd_le, ParseError> {
 let num_fields = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
@@ -24218,9 +23985,9 @@ accum
 PResult::Ok(tiff_ifd_le { num_fields, fields, next_ifd_offset, next_ifd })
 }
 
-/// d#275
+/// d#272
 fn Decoder_riff_subchunks(_input: &mut Parser<'_>) -> Result<riff_subchunks, ParseError> {
-let tag = (Decoder276(_input))?;
+let tag = (Decoder273(_input))?;
 let chunks = {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -24249,14 +24016,14 @@ accum
 PResult::Ok(riff_subchunks { tag, chunks })
 }
 
-/// d#276
-fn Decoder276(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
+/// d#273
+fn Decoder273(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
 PResult::Ok((_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?))
 }
 
-/// d#277
+/// d#274
 fn Decoder_riff_chunk(_input: &mut Parser<'_>) -> Result<riff_chunk, ParseError> {
-let tag = (Decoder276(_input))?;
+let tag = (Decoder273(_input))?;
 let length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32le(x)
@@ -24305,7 +24072,7 @@ None
 PResult::Ok(riff_chunk { tag, length, data, pad })
 }
 
-/// d#278
+/// d#275
 fn Decoder_png_ihdr(_input: &mut Parser<'_>) -> Result<png_ihdr, ParseError> {
 let length = {
 let inner = {
@@ -24322,7 +24089,7 @@ inner
 return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
 }
 };
-let tag = (Decoder314(_input))?;
+let tag = (Decoder311(_input))?;
 let data = {
 let sz = length as usize;
 _input.start_slice(sz)?;
@@ -24337,7 +24104,7 @@ u32be(x)
 PResult::Ok(png_ihdr { length, tag, data, crc })
 }
 
-/// d#279
+/// d#276
 fn Decoder_png_chunk(_input: &mut Parser<'_>, ihdr: png_ihdr) -> Result<png_chunk, ParseError> {
 let length = {
 let inner = {
@@ -24354,13 +24121,13 @@ inner
 return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
-let tag = (Decoder286(_input))?;
+let tag = (Decoder283(_input))?;
 let data = {
 let sz = length as usize;
 _input.start_slice(sz)?;
 let ret = match slice_all(&tag) {
 [80u8, 76u8, 84u8, 69u8] => {
-let inner = (Decoder287(_input))?;
+let inner = (Decoder284(_input))?;
 png_chunk_data::PLTE(inner)
 },
 
@@ -24473,7 +24240,7 @@ u32be(x)
 PResult::Ok(png_chunk { length, tag, data, crc })
 }
 
-/// d#280
+/// d#277
 fn Decoder_png_idat(_input: &mut Parser<'_>) -> Result<png_idat, ParseError> {
 let length = {
 let inner = {
@@ -24490,11 +24257,11 @@ inner
 return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
 }
 };
-let tag = (Decoder284(_input))?;
+let tag = (Decoder281(_input))?;
 let data = {
 let sz = length as usize;
 _input.start_slice(sz)?;
-let ret = (Decoder285(_input))?;
+let ret = (Decoder282(_input))?;
 _input.end_slice()?;
 ret
 };
@@ -24505,7 +24272,7 @@ u32be(x)
 PResult::Ok(png_idat { length, tag, data, crc })
 }
 
-/// d#281
+/// d#278
 fn Decoder_zlib_main(_input: &mut Parser<'_>) -> Result<zlib_main, ParseError> {
 let compression_method_flags = {
 let inner = {
@@ -24550,7 +24317,7 @@ u32be(x)
 PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32 })
 }
 
-/// d#282
+/// d#279
 fn Decoder_png_iend(_input: &mut Parser<'_>) -> Result<png_iend, ParseError> {
 let length = {
 let inner = {
@@ -24567,7 +24334,7 @@ inner
 return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
-let tag = (Decoder283(_input))?;
+let tag = (Decoder280(_input))?;
 let crc = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
@@ -24575,8 +24342,8 @@ u32be(x)
 PResult::Ok(png_iend { length, tag, crc })
 }
 
-/// d#283
-fn Decoder283(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
+/// d#280
+fn Decoder280(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
 let arg0 = {
 let b = _input.read_byte()?;
 if b == 73 {
@@ -24612,8 +24379,8 @@ return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 PResult::Ok((arg0, arg1, arg2, arg3))
 }
 
-/// d#284
-fn Decoder284(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
+/// d#281
+fn Decoder281(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
 let arg0 = {
 let b = _input.read_byte()?;
 if b == 73 {
@@ -24649,8 +24416,8 @@ return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 PResult::Ok((arg0, arg1, arg2, arg3))
 }
 
-/// d#285
-fn Decoder285(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
+/// d#282
+fn Decoder282(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
@@ -24676,8 +24443,8 @@ break
 PResult::Ok(accum)
 }
 
-/// d#286
-fn Decoder286(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
+/// d#283
+fn Decoder283(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 {
 _input.open_peek_not_context();
 let res = (|| (|| {
@@ -24798,8 +24565,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#287
-fn Decoder287(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
+/// d#284
+fn Decoder284(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
@@ -24837,7 +24604,7 @@ return Err(ParseError::InsufficientRepeats);
 PResult::Ok(accum)
 }
 
-/// d#288
+/// d#285
 fn Decoder_png_trns(_input: &mut Parser<'_>, ihdr: png_ihdr) -> Result<png_trns, ParseError> {
 PResult::Ok(match ihdr.data.color_type {
 0u8 => {
@@ -24908,7 +24675,7 @@ return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 })
 }
 
-/// d#289
+/// d#286
 fn Decoder_png_chrm(_input: &mut Parser<'_>) -> Result<png_chrm, ParseError> {
 let whitepoint_x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -24945,7 +24712,7 @@ u32be(x)
 PResult::Ok(png_chrm { whitepoint_x, whitepoint_y, red_x, red_y, green_x, green_y, blue_x, blue_y })
 }
 
-/// d#290
+/// d#287
 fn Decoder_png_gama(_input: &mut Parser<'_>) -> Result<png_gama, ParseError> {
 let gamma = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -24954,10 +24721,10 @@ u32be(x)
 PResult::Ok(png_gama { gamma })
 }
 
-/// d#291
+/// d#288
 fn Decoder_png_iccp(_input: &mut Parser<'_>) -> Result<png_iccp, ParseError> {
 let profile_name = {
-let val = (Decoder312(_input))?;
+let val = (Decoder309(_input))?;
 {
 let b = _input.read_byte()?;
 if b == 0 {
@@ -24976,11 +24743,11 @@ b
 return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
-let compressed_profile = (Decoder313(_input))?;
+let compressed_profile = (Decoder310(_input))?;
 PResult::Ok(png_iccp { profile_name, compression_method, compressed_profile })
 }
 
-/// d#292
+/// d#289
 fn Decoder_png_sbit(_input: &mut Parser<'_>, ihdr: png_ihdr) -> Result<png_sbit, ParseError> {
 PResult::Ok(match ihdr.data.color_type {
 0u8 => {
@@ -25037,7 +24804,7 @@ return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 })
 }
 
-/// d#293
+/// d#290
 fn Decoder_png_srgb(_input: &mut Parser<'_>) -> Result<png_srgb, ParseError> {
 let rendering_intent = {
 let inner = _input.read_byte()?;
@@ -25054,10 +24821,10 @@ return Err(ParseError::FalsifiedWhere(5041932778480497827u64));
 PResult::Ok(png_srgb { rendering_intent })
 }
 
-/// d#294
+/// d#291
 fn Decoder_png_itxt(_input: &mut Parser<'_>) -> Result<png_itxt, ParseError> {
 let keyword = {
-let val = (Decoder306(_input))?;
+let val = (Decoder303(_input))?;
 {
 let b = _input.read_byte()?;
 if b == 0 {
@@ -25135,7 +24902,7 @@ return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 chars.clone()
 };
 let translated_keyword = {
-let val = (Decoder307(_input))?;
+let val = (Decoder304(_input))?;
 {
 let b = _input.read_byte()?;
 if b == 0 {
@@ -25153,10 +24920,10 @@ _input.start_alt();
 let res = (|| {
 let inner = {
 let inner = {
-let zlib = (Decoder308(_input))?;
+let zlib = (Decoder305(_input))?;
 let mut buf_parser = Parser::new(slice_all(&zlib.data.inflate));
 let buf_input = &mut buf_parser;
-(Decoder309(buf_input))?
+(Decoder306(buf_input))?
 };
 png_itxt_text_compressed::valid(inner)
 };
@@ -25216,17 +24983,17 @@ Err(_e)
 },
 
 false => {
-let inner = (Decoder310(_input))?;
+let inner = (Decoder307(_input))?;
 png_itxt_text::uncompressed(inner)
 }
 };
 PResult::Ok(png_itxt { keyword, compression_flag, compression_method, language_tag, translated_keyword, text })
 }
 
-/// d#295
+/// d#292
 fn Decoder_png_text(_input: &mut Parser<'_>) -> Result<png_text, ParseError> {
 let keyword = {
-let val = (Decoder305(_input))?;
+let val = (Decoder302(_input))?;
 {
 let b = _input.read_byte()?;
 if b == 0 {
@@ -25265,10 +25032,10 @@ accum
 PResult::Ok(png_text { keyword, text })
 }
 
-/// d#296
+/// d#293
 fn Decoder_png_ztxt(_input: &mut Parser<'_>) -> Result<png_ztxt, ParseError> {
 let keyword = {
-let val = (Decoder303(_input))?;
+let val = (Decoder300(_input))?;
 {
 let b = _input.read_byte()?;
 if b == 0 {
@@ -25288,7 +25055,7 @@ return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 let compressed_text = {
-let zlib = (Decoder304(_input))?;
+let zlib = (Decoder301(_input))?;
 let mut buf_parser = Parser::new(slice_all(&zlib.data.inflate));
 let buf_input = &mut buf_parser;
 (Decoder77(buf_input))?
@@ -25296,7 +25063,7 @@ let buf_input = &mut buf_parser;
 PResult::Ok(png_ztxt { keyword, compression_method, compressed_text })
 }
 
-/// d#297
+/// d#294
 fn Decoder_png_bkgd(_input: &mut Parser<'_>, ihdr: png_ihdr) -> Result<png_bkgd, ParseError> {
 PResult::Ok(match ihdr.data.color_type {
 0u8 => {
@@ -25373,7 +25140,7 @@ return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 })
 }
 
-/// d#298
+/// d#295
 fn Decoder_png_hist(_input: &mut Parser<'_>) -> Result<png_hist, ParseError> {
 let histogram = {
 let mut accum = Vec::new();
@@ -25406,7 +25173,7 @@ accum
 PResult::Ok(png_hist { histogram })
 }
 
-/// d#299
+/// d#296
 fn Decoder_png_phys(_input: &mut Parser<'_>) -> Result<png_phys, ParseError> {
 let pixels_per_unit_x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -25420,10 +25187,10 @@ let unit_specifier = _input.read_byte()?;
 PResult::Ok(png_phys { pixels_per_unit_x, pixels_per_unit_y, unit_specifier })
 }
 
-/// d#300
+/// d#297
 fn Decoder_png_splt(_input: &mut Parser<'_>) -> Result<png_splt, ParseError> {
 let palette_name = {
-let val = (Decoder302(_input))?;
+let val = (Decoder299(_input))?;
 {
 let b = _input.read_byte()?;
 if b == 0 {
@@ -25540,7 +25307,7 @@ return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
 }
 
-/// d#301
+/// d#298
 fn Decoder_png_time(_input: &mut Parser<'_>) -> Result<png_time, ParseError> {
 let year = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -25554,8 +25321,8 @@ let second = _input.read_byte()?;
 PResult::Ok(png_time { year, month, day, hour, minute, second })
 }
 
-/// d#302
-fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
+/// d#299
+fn Decoder299(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
 while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
@@ -26532,8 +26299,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#303
-fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
+/// d#300
+fn Decoder300(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
 while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
@@ -27510,8 +27277,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#304
-fn Decoder304(_input: &mut Parser<'_>) -> Result<zlib_main, ParseError> {
+/// d#301
+fn Decoder301(_input: &mut Parser<'_>) -> Result<zlib_main, ParseError> {
 let compression_method_flags = {
 let inner = {
 let _packed_bits = _input.read_byte()?;
@@ -27555,8 +27322,8 @@ u32be(x)
 PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32 })
 }
 
-/// d#305
-fn Decoder305(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
+/// d#302
+fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
 while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
@@ -28533,8 +28300,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#306
-fn Decoder306(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
+/// d#303
+fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
 while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
@@ -29511,8 +29278,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#307
-fn Decoder307(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
+/// d#304
+fn Decoder304(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
@@ -29577,8 +29344,8 @@ break
 PResult::Ok(accum)
 }
 
-/// d#308
-fn Decoder308(_input: &mut Parser<'_>) -> Result<zlib_main, ParseError> {
+/// d#305
+fn Decoder305(_input: &mut Parser<'_>) -> Result<zlib_main, ParseError> {
 let compression_method_flags = {
 let inner = {
 let _packed_bits = _input.read_byte()?;
@@ -29622,8 +29389,8 @@ u32be(x)
 PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32 })
 }
 
-/// d#309
-fn Decoder309(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
+/// d#306
+fn Decoder306(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
@@ -29688,13 +29455,13 @@ break
 PResult::Ok(accum)
 }
 
-/// d#310
-fn Decoder310(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
-Decoder311(_input)
+/// d#307
+fn Decoder307(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
+Decoder308(_input)
 }
 
-/// d#311
-fn Decoder311(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
+/// d#308
+fn Decoder308(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
@@ -29763,8 +29530,8 @@ break
 PResult::Ok(accum)
 }
 
-/// d#312
-fn Decoder312(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
+/// d#309
+fn Decoder309(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
 while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
 let reps_left = {
@@ -30741,8 +30508,8 @@ accum.push(next_elem)
 PResult::Ok(accum)
 }
 
-/// d#313
-fn Decoder313(_input: &mut Parser<'_>) -> Result<zlib_main, ParseError> {
+/// d#310
+fn Decoder310(_input: &mut Parser<'_>) -> Result<zlib_main, ParseError> {
 let compression_method_flags = {
 let inner = {
 let _packed_bits = _input.read_byte()?;
@@ -30786,8 +30553,8 @@ u32be(x)
 PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32 })
 }
 
-/// d#314
-fn Decoder314(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
+/// d#311
+fn Decoder311(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
 let arg0 = {
 let b = _input.read_byte()?;
 if b == 73 {
@@ -30823,7 +30590,7 @@ return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 PResult::Ok((arg0, arg1, arg2, arg3))
 }
 
-/// d#315
+/// d#312
 fn Decoder_png_ihdr_data(_input: &mut Parser<'_>) -> Result<png_ihdr_data, ParseError> {
 let width = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -30841,13 +30608,13 @@ let interlace_method = _input.read_byte()?;
 PResult::Ok(png_ihdr_data { width, height, bit_depth, color_type, compression_method, filter_method, interlace_method })
 }
 
-/// d#316
+/// d#313
 fn Decoder_mpeg4_atom(_input: &mut Parser<'_>) -> Result<mpeg4_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -30979,14 +30746,14 @@ ret
 PResult::Ok(mpeg4_atom { size_field, r#type, size, data })
 }
 
-/// d#317
-fn Decoder317(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
+/// d#314
+fn Decoder314(_input: &mut Parser<'_>) -> Result<(u8, u8, u8, u8), ParseError> {
 PResult::Ok((_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?))
 }
 
-/// d#318
+/// d#315
 fn Decoder_mpeg4_ftyp_data(_input: &mut Parser<'_>) -> Result<mpeg4_ftyp_data, ParseError> {
-let major_brand = (Decoder317(_input))?;
+let major_brand = (Decoder314(_input))?;
 let minor_version = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
@@ -31008,7 +30775,7 @@ ret
 }
 };
 if matching_ix == 0 {
-let next_elem = (Decoder317(_input))?;
+let next_elem = (Decoder314(_input))?;
 accum.push(next_elem)
 } else {
 break
@@ -31019,13 +30786,13 @@ accum
 PResult::Ok(mpeg4_ftyp_data { major_brand, minor_version, compatible_brands })
 }
 
-/// d#319
+/// d#316
 fn Decoder_mpeg4_meta_atom(_input: &mut Parser<'_>) -> Result<mpeg4_meta_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -31053,13 +30820,13 @@ ret
 PResult::Ok(mpeg4_meta_atom { size_field, r#type, size, data })
 }
 
-/// d#320
+/// d#317
 fn Decoder_mpeg4_moov_atom(_input: &mut Parser<'_>) -> Result<mpeg4_moov_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -31179,7 +30946,7 @@ ret
 PResult::Ok(mpeg4_moov_atom { size_field, r#type, size, data })
 }
 
-/// d#321
+/// d#318
 fn Decoder_mpeg4_mvhd_data(_input: &mut Parser<'_>) -> Result<mpeg4_mvhd_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -31286,13 +31053,13 @@ u32be(x)
 PResult::Ok(mpeg4_mvhd_data { version, flags, fields, rate, volume, reserved1, reserved2, matrix, pre_defined, next_track_ID })
 }
 
-/// d#322
+/// d#319
 fn Decoder_mpeg4_trak_atom(_input: &mut Parser<'_>) -> Result<mpeg4_trak_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -31412,13 +31179,13 @@ ret
 PResult::Ok(mpeg4_trak_atom { size_field, r#type, size, data })
 }
 
-/// d#323
+/// d#320
 fn Decoder_mpeg4_udta_atom(_input: &mut Parser<'_>) -> Result<mpeg4_udta_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -31508,7 +31275,7 @@ ret
 PResult::Ok(mpeg4_udta_atom { size_field, r#type, size, data })
 }
 
-/// d#324
+/// d#321
 fn Decoder_mpeg4_tkhd_data(_input: &mut Parser<'_>) -> Result<mpeg4_tkhd_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -31620,13 +31387,13 @@ u32be(x)
 PResult::Ok(mpeg4_tkhd_data { version, flags, fields, reserved2, layer, alternate_group, volume, reserved1, matrix, width, height })
 }
 
-/// d#325
+/// d#322
 fn Decoder_mpeg4_edts_atom(_input: &mut Parser<'_>) -> Result<mpeg4_edts_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -31688,13 +31455,13 @@ ret
 PResult::Ok(mpeg4_edts_atom { size_field, r#type, size, data })
 }
 
-/// d#326
+/// d#323
 fn Decoder_mpeg4_mdia_atom(_input: &mut Parser<'_>) -> Result<mpeg4_mdia_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -31722,7 +31489,7 @@ ret
 PResult::Ok(mpeg4_mdia_atom { size_field, r#type, size, data })
 }
 
-/// d#327
+/// d#324
 fn Decoder_mpeg4_mdia_atom_data(_input: &mut Parser<'_>, r#type: (u8, u8, u8, u8)) -> Result<mpeg4_mdia_atom_data, ParseError> {
 PResult::Ok(match r#type {
 (104u8, 100u8, 108u8, 114u8) => {
@@ -31795,7 +31562,7 @@ mpeg4_mdia_atom_data::unknown(inner)
 })
 }
 
-/// d#328
+/// d#325
 fn Decoder_mpeg4_mdia_hdlr_data(_input: &mut Parser<'_>) -> Result<mpeg4_mdia_hdlr_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -31803,7 +31570,7 @@ let component_type = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let component_subtype = (Decoder317(_input))?;
+let component_subtype = (Decoder314(_input))?;
 let component_manufacturer = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
@@ -31869,7 +31636,7 @@ chars.clone()
 PResult::Ok(mpeg4_mdia_hdlr_data { version, flags, component_type, component_subtype, component_manufacturer, component_flags, component_flags_mask, component_name })
 }
 
-/// d#329
+/// d#326
 fn Decoder_mpeg4_mdhd_data(_input: &mut Parser<'_>) -> Result<mpeg4_mdhd_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -31935,13 +31702,13 @@ u16be(x)
 PResult::Ok(mpeg4_mdhd_data { version, flags, fields, language, pre_defined })
 }
 
-/// d#330
+/// d#327
 fn Decoder_mpeg4_minf_atom(_input: &mut Parser<'_>) -> Result<mpeg4_minf_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -32066,7 +31833,7 @@ ret
 PResult::Ok(mpeg4_minf_atom { size_field, r#type, size, data })
 }
 
-/// d#331
+/// d#328
 fn Decoder_mpeg4_vmhd_data(_input: &mut Parser<'_>) -> Result<mpeg4_vmhd_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32088,7 +31855,7 @@ accum
 PResult::Ok(mpeg4_vmhd_data { version, flags, graphicsmode, opcolor })
 }
 
-/// d#332
+/// d#329
 fn Decoder_mpeg4_smhd_data(_input: &mut Parser<'_>) -> Result<mpeg4_smhd_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32103,13 +31870,13 @@ u16be(x)
 PResult::Ok(mpeg4_smhd_data { version, flags, balance, reserved })
 }
 
-/// d#333
+/// d#330
 fn Decoder_mpeg4_dinf_atom(_input: &mut Parser<'_>) -> Result<mpeg4_dinf_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -32171,13 +31938,13 @@ ret
 PResult::Ok(mpeg4_dinf_atom { size_field, r#type, size, data })
 }
 
-/// d#334
+/// d#331
 fn Decoder_mpeg4_stbl_atom(_input: &mut Parser<'_>) -> Result<mpeg4_stbl_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -32284,7 +32051,7 @@ ret
 PResult::Ok(mpeg4_stbl_atom { size_field, r#type, size, data })
 }
 
-/// d#335
+/// d#332
 fn Decoder_mpeg4_stsd_data(_input: &mut Parser<'_>) -> Result<mpeg4_stsd_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32303,7 +32070,7 @@ accum
 PResult::Ok(mpeg4_stsd_data { version, flags, entry_count, sample_entries })
 }
 
-/// d#336
+/// d#333
 fn Decoder_mpeg4_stts_data(_input: &mut Parser<'_>) -> Result<mpeg4_stts_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32322,7 +32089,7 @@ accum
 PResult::Ok(mpeg4_stts_data { version, flags, entry_count, sample_entries })
 }
 
-/// d#337
+/// d#334
 fn Decoder_mpeg4_ctts_data(_input: &mut Parser<'_>) -> Result<mpeg4_ctts_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32341,7 +32108,7 @@ accum
 PResult::Ok(mpeg4_ctts_data { version, flags, entry_count, sample_entries })
 }
 
-/// d#338
+/// d#335
 fn Decoder_mpeg4_stss_data(_input: &mut Parser<'_>) -> Result<mpeg4_stss_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32363,7 +32130,7 @@ accum
 PResult::Ok(mpeg4_stss_data { version, flags, entry_count, sample_number })
 }
 
-/// d#339
+/// d#336
 fn Decoder_mpeg4_stsc_data(_input: &mut Parser<'_>) -> Result<mpeg4_stsc_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32396,7 +32163,7 @@ accum
 PResult::Ok(mpeg4_stsc_data { version, flags, entry_count, chunk_entries })
 }
 
-/// d#340
+/// d#337
 fn Decoder_mpeg4_stsz_data(_input: &mut Parser<'_>) -> Result<mpeg4_stsz_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32424,7 +32191,7 @@ None
 PResult::Ok(mpeg4_stsz_data { version, flags, sample_size, sample_count, entry_size })
 }
 
-/// d#341
+/// d#338
 fn Decoder_mpeg4_stco_data(_input: &mut Parser<'_>) -> Result<mpeg4_stco_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32446,7 +32213,7 @@ accum
 PResult::Ok(mpeg4_stco_data { version, flags, entry_count, chunk_offset })
 }
 
-/// d#342
+/// d#339
 fn Decoder_mpeg4_co64_data(_input: &mut Parser<'_>) -> Result<mpeg4_co64_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32468,7 +32235,7 @@ accum
 PResult::Ok(mpeg4_co64_data { version, flags, entry_count, chunk_offset })
 }
 
-/// d#343
+/// d#340
 fn Decoder_mpeg4_sgpd_data(_input: &mut Parser<'_>) -> Result<mpeg4_sgpd_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32515,7 +32282,7 @@ accum
 PResult::Ok(mpeg4_sgpd_data { version, flags, grouping_type, default_length, entry_count, sample_groups })
 }
 
-/// d#344
+/// d#341
 fn Decoder_mpeg4_sbgp_data(_input: &mut Parser<'_>) -> Result<mpeg4_sbgp_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32554,7 +32321,7 @@ accum
 PResult::Ok(mpeg4_sbgp_data { version, flags, grouping_type, grouping_type_parameter, entry_count, sample_groups })
 }
 
-/// d#345
+/// d#342
 fn Decoder_mpeg4_ctts_sample_entry(_input: &mut Parser<'_>) -> Result<mpeg4_ctts_sample_entry, ParseError> {
 let sample_count = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32567,7 +32334,7 @@ u32be(x)
 PResult::Ok(mpeg4_ctts_sample_entry { sample_count, sample_offset })
 }
 
-/// d#346
+/// d#343
 fn Decoder_mpeg4_stts_sample_entry(_input: &mut Parser<'_>) -> Result<mpeg4_stts_sample_entry, ParseError> {
 let sample_count = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32580,13 +32347,13 @@ u32be(x)
 PResult::Ok(mpeg4_stts_sample_entry { sample_count, sample_delta })
 }
 
-/// d#347
+/// d#344
 fn Decoder_mpeg4_dref_data_data(_input: &mut Parser<'_>) -> Result<mpeg4_dref_data_data, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -32638,7 +32405,7 @@ ret
 PResult::Ok(mpeg4_dref_data_data { size_field, r#type, size, data })
 }
 
-/// d#348
+/// d#345
 fn Decoder_mpeg4_dref_data(_input: &mut Parser<'_>) -> Result<mpeg4_dref_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32663,7 +32430,7 @@ ret
 }
 };
 if matching_ix == 0 {
-let next_elem = (Decoder349(_input))?;
+let next_elem = (Decoder346(_input))?;
 accum.push(next_elem)
 } else {
 break
@@ -32674,13 +32441,13 @@ accum
 PResult::Ok(mpeg4_dref_data { version, flags, number_of_entries, data })
 }
 
-/// d#349
-fn Decoder349(_input: &mut Parser<'_>) -> Result<mpeg4_dref_data_data, ParseError> {
+/// d#346
+fn Decoder346(_input: &mut Parser<'_>) -> Result<mpeg4_dref_data_data, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -32732,7 +32499,7 @@ ret
 PResult::Ok(mpeg4_dref_data_data { size_field, r#type, size, data })
 }
 
-/// d#350
+/// d#347
 fn Decoder_mpeg4_elst_data(_input: &mut Parser<'_>) -> Result<mpeg4_elst_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32751,7 +32518,7 @@ accum
 PResult::Ok(mpeg4_elst_data { version, flags, number_of_entries, edit_list_table })
 }
 
-/// d#351
+/// d#348
 fn Decoder_mpeg4_elst_data_entry(_input: &mut Parser<'_>) -> Result<mpeg4_elst_data_entry, ParseError> {
 let track_duration = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32768,7 +32535,7 @@ u32be(x)
 PResult::Ok(mpeg4_elst_data_entry { track_duration, media_time, media_rate })
 }
 
-/// d#352
+/// d#349
 fn Decoder_mpeg4_meta_atom_data(_input: &mut Parser<'_>, r#type: (u8, u8, u8, u8)) -> Result<mpeg4_meta_atom_data, ParseError> {
 PResult::Ok(match r#type {
 (100u8, 105u8, 110u8, 102u8) => {
@@ -32914,7 +32681,7 @@ mpeg4_meta_atom_data::unknown(inner)
 })
 }
 
-/// d#353
+/// d#350
 fn Decoder_mpeg4_meta_hdlr_data(_input: &mut Parser<'_>) -> Result<mpeg4_meta_hdlr_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32922,7 +32689,7 @@ let predefined = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let handler_type = (Decoder317(_input))?;
+let handler_type = (Decoder314(_input))?;
 let reserved = {
 let arg0 = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -32991,7 +32758,7 @@ chars.clone()
 PResult::Ok(mpeg4_meta_hdlr_data { version, flags, predefined, handler_type, reserved, name })
 }
 
-/// d#354
+/// d#351
 fn Decoder_mpeg4_pitm_atom_data(_input: &mut Parser<'_>) -> Result<mpeg4_pitm_atom_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -33015,7 +32782,7 @@ mpeg4_pitm_atom_data_item_ID::Id32(inner)
 PResult::Ok(mpeg4_pitm_atom_data { version, flags, item_ID })
 }
 
-/// d#355
+/// d#352
 fn Decoder_mpeg4_iinf(_input: &mut Parser<'_>) -> Result<mpeg4_iinf, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -33044,7 +32811,7 @@ accum
 PResult::Ok(mpeg4_iinf { version, flags, entry_count, item_info_entry })
 }
 
-/// d#356
+/// d#353
 fn Decoder_mpeg4_iref_data(_input: &mut Parser<'_>) -> Result<mpeg4_iref_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -33114,7 +32881,7 @@ return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
 }
 
-/// d#357
+/// d#354
 fn Decoder_mpeg4_iloc_atom_data(_input: &mut Parser<'_>) -> Result<mpeg4_iloc_atom_data, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -33217,13 +32984,13 @@ accum
 PResult::Ok(mpeg4_iloc_atom_data { version, flags, offset_size, length_size, base_offset_size, index_size, item_count, items })
 }
 
-/// d#358
+/// d#355
 fn Decoder_mpeg4_ilst_atom(_input: &mut Parser<'_>) -> Result<mpeg4_ilst_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -33309,13 +33076,13 @@ ret
 PResult::Ok(mpeg4_ilst_atom { size_field, r#type, size, data })
 }
 
-/// d#359
+/// d#356
 fn Decoder_mpeg4_tool_atom(_input: &mut Parser<'_>) -> Result<mpeg4_tool_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -33377,7 +33144,7 @@ ret
 PResult::Ok(mpeg4_tool_atom { size_field, r#type, size, data })
 }
 
-/// d#360
+/// d#357
 fn Decoder_mpeg4_tool_atom_data_data(_input: &mut Parser<'_>) -> Result<mpeg4_tool_atom_data_data, ParseError> {
 let type_indicator = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -33415,7 +33182,7 @@ accum
 PResult::Ok(mpeg4_tool_atom_data_data { type_indicator, locale_indicator, value })
 }
 
-/// d#361
+/// d#358
 fn Decoder_mpeg4_iloc_extent(_input: &mut Parser<'_>, offset_size: u8, length_size: u8, index_size: u8) -> Result<mpeg4_iloc_extent, ParseError> {
 let extent_index = match index_size {
 0u8 => {
@@ -33486,13 +33253,13 @@ return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
 }
 
-/// d#362
+/// d#359
 fn Decoder_mpeg4_iref_data_single_item_reference_small(_input: &mut Parser<'_>) -> Result<mpeg4_iref_data_single_item_reference_small, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -33541,13 +33308,13 @@ ret
 PResult::Ok(mpeg4_iref_data_single_item_reference_small { size_field, r#type, size, data })
 }
 
-/// d#363
+/// d#360
 fn Decoder_mpeg4_iref_data_single_item_reference_large(_input: &mut Parser<'_>) -> Result<mpeg4_iref_data_single_item_reference_large, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -33596,13 +33363,13 @@ ret
 PResult::Ok(mpeg4_iref_data_single_item_reference_large { size_field, r#type, size, data })
 }
 
-/// d#364
+/// d#361
 fn Decoder_mpeg4_iinf_atom(_input: &mut Parser<'_>) -> Result<mpeg4_iinf_atom, ParseError> {
 let size_field = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let r#type = (Decoder317(_input))?;
+let r#type = (Decoder314(_input))?;
 let size = match size_field {
 0u32 => {
 0u64
@@ -33664,7 +33431,7 @@ ret
 PResult::Ok(mpeg4_iinf_atom { size_field, r#type, size, data })
 }
 
-/// d#365
+/// d#362
 fn Decoder_mpeg4_iinf_atom_data_infe(_input: &mut Parser<'_>) -> Result<mpeg4_iinf_atom_data_infe, ParseError> {
 let version = _input.read_byte()?;
 let flags = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -33672,7 +33439,7 @@ let fields = (Decoder_mpeg4_infe_data_fields(_input, version))?;
 PResult::Ok(mpeg4_iinf_atom_data_infe { version, flags, fields })
 }
 
-/// d#366
+/// d#363
 fn Decoder_mpeg4_infe_data_fields(_input: &mut Parser<'_>, version: u8) -> Result<mpeg4_infe_data_fields, ParseError> {
 PResult::Ok(match version < 2u8 {
 true => {
@@ -33687,7 +33454,7 @@ mpeg4_infe_data_fields::Version2(inner)
 })
 }
 
-/// d#367
+/// d#364
 fn Decoder_mpeg4_infe_data_fields_version_lt2(_input: &mut Parser<'_>) -> Result<mpeg4_infe_data_fields_version_lt2, ParseError> {
 let item_ID = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -33850,7 +33617,7 @@ chars.clone()
 PResult::Ok(mpeg4_infe_data_fields_version_lt2 { item_ID, item_protection_index, item_name, content_type, content_encoding })
 }
 
-/// d#368
+/// d#365
 fn Decoder_mpeg4_infe_data_fields_version_gte2(_input: &mut Parser<'_>, version: u8) -> Result<mpeg4_infe_data_fields_version_gte2, ParseError> {
 let item_ID = match version == 2u8 {
 true => {
@@ -33870,7 +33637,7 @@ let item_protection_index = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let item_type = (Decoder317(_input))?;
+let item_type = (Decoder314(_input))?;
 let item_name = {
 let chars = {
 let mut accum = Vec::new();
@@ -33925,7 +33692,7 @@ let extra_fields = (Decoder_mpeg4_infe_atom_data_extra_fields(_input, item_type)
 PResult::Ok(mpeg4_infe_data_fields_version_gte2 { item_ID, item_protection_index, item_type, item_name, extra_fields })
 }
 
-/// d#369
+/// d#366
 fn Decoder_mpeg4_infe_atom_data_extra_fields(_input: &mut Parser<'_>, item_type: (u8, u8, u8, u8)) -> Result<mpeg4_infe_atom_data_extra_fields, ParseError> {
 PResult::Ok(match item_type {
 (109u8, 105u8, 109u8, 101u8) => {
@@ -33944,7 +33711,7 @@ mpeg4_infe_atom_data_extra_fields::unknown
 })
 }
 
-/// d#370
+/// d#367
 fn Decoder_mpeg4_infe_atom_data_extra_fields_mime(_input: &mut Parser<'_>) -> Result<mpeg4_infe_atom_data_extra_fields_mime, ParseError> {
 let content_type = {
 let chars = {
@@ -33999,7 +33766,7 @@ chars.clone()
 PResult::Ok(mpeg4_infe_atom_data_extra_fields_mime { content_type })
 }
 
-/// d#371
+/// d#368
 fn Decoder_mpeg4_infe_atom_data_extra_fields_uri(_input: &mut Parser<'_>) -> Result<mpeg4_infe_atom_data_extra_fields_uri, ParseError> {
 let item_uri_type = {
 let chars = {
@@ -34054,7 +33821,7 @@ chars.clone()
 PResult::Ok(mpeg4_infe_atom_data_extra_fields_uri { item_uri_type })
 }
 
-/// d#372
+/// d#369
 fn Decoder_jpeg_soi(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
@@ -34075,7 +33842,7 @@ return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#373
+/// d#370
 fn Decoder_jpeg_frame(_input: &mut Parser<'_>) -> Result<jpeg_frame, ParseError> {
 let initial_segment = (Decoder_jpeg_frame_initial_segment(_input))?;
 let segments = {
@@ -34486,7 +34253,7 @@ ret
 }
 };
 if matching_ix == 0 {
-let next_elem = (Decoder380(_input))?;
+let next_elem = (Decoder377(_input))?;
 accum.push(next_elem)
 } else {
 break
@@ -34497,8 +34264,8 @@ accum
 PResult::Ok(jpeg_frame { initial_segment, segments, header, scan, dnl, scans })
 }
 
-/// d#374
-fn Decoder374(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#371
+fn Decoder371(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -34518,7 +34285,7 @@ return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#375
+/// d#372
 fn Decoder_jpeg_frame_initial_segment(_input: &mut Parser<'_>) -> Result<jpeg_frame_initial_segment, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -34562,7 +34329,7 @@ return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 })
 }
 
-/// d#376
+/// d#373
 fn Decoder_jpeg_table_or_misc(_input: &mut Parser<'_>) -> Result<jpeg_table_or_misc, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -34702,72 +34469,72 @@ jpeg_table_or_misc::app2(inner)
 },
 
 7 => {
-let inner = (Decoder421(_input))?;
+let inner = (Decoder418(_input))?;
 jpeg_table_or_misc::app3(inner)
 },
 
 8 => {
-let inner = (Decoder422(_input))?;
+let inner = (Decoder419(_input))?;
 jpeg_table_or_misc::app4(inner)
 },
 
 9 => {
-let inner = (Decoder423(_input))?;
+let inner = (Decoder420(_input))?;
 jpeg_table_or_misc::app5(inner)
 },
 
 10 => {
-let inner = (Decoder424(_input))?;
+let inner = (Decoder421(_input))?;
 jpeg_table_or_misc::app6(inner)
 },
 
 11 => {
-let inner = (Decoder425(_input))?;
+let inner = (Decoder422(_input))?;
 jpeg_table_or_misc::app7(inner)
 },
 
 12 => {
-let inner = (Decoder426(_input))?;
+let inner = (Decoder423(_input))?;
 jpeg_table_or_misc::app8(inner)
 },
 
 13 => {
-let inner = (Decoder427(_input))?;
+let inner = (Decoder424(_input))?;
 jpeg_table_or_misc::app9(inner)
 },
 
 14 => {
-let inner = (Decoder428(_input))?;
+let inner = (Decoder425(_input))?;
 jpeg_table_or_misc::app10(inner)
 },
 
 15 => {
-let inner = (Decoder429(_input))?;
+let inner = (Decoder426(_input))?;
 jpeg_table_or_misc::app11(inner)
 },
 
 16 => {
-let inner = (Decoder430(_input))?;
+let inner = (Decoder427(_input))?;
 jpeg_table_or_misc::app12(inner)
 },
 
 17 => {
-let inner = (Decoder431(_input))?;
+let inner = (Decoder428(_input))?;
 jpeg_table_or_misc::app13(inner)
 },
 
 18 => {
-let inner = (Decoder432(_input))?;
+let inner = (Decoder429(_input))?;
 jpeg_table_or_misc::app14(inner)
 },
 
 19 => {
-let inner = (Decoder433(_input))?;
+let inner = (Decoder430(_input))?;
 jpeg_table_or_misc::app15(inner)
 },
 
 20 => {
-let inner = (Decoder434(_input))?;
+let inner = (Decoder431(_input))?;
 jpeg_table_or_misc::com(inner)
 },
 
@@ -34777,7 +34544,7 @@ return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 })
 }
 
-/// d#377
+/// d#374
 fn Decoder_jpeg_frame_header(_input: &mut Parser<'_>) -> Result<jpeg_frame_header, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -34855,62 +34622,62 @@ jpeg_frame_header::sof0(inner)
 },
 
 1 => {
-let inner = (Decoder400(_input))?;
+let inner = (Decoder397(_input))?;
 jpeg_frame_header::sof1(inner)
 },
 
 2 => {
-let inner = (Decoder401(_input))?;
+let inner = (Decoder398(_input))?;
 jpeg_frame_header::sof2(inner)
 },
 
 3 => {
-let inner = (Decoder402(_input))?;
+let inner = (Decoder399(_input))?;
 jpeg_frame_header::sof3(inner)
 },
 
 4 => {
-let inner = (Decoder403(_input))?;
+let inner = (Decoder400(_input))?;
 jpeg_frame_header::sof5(inner)
 },
 
 5 => {
-let inner = (Decoder404(_input))?;
+let inner = (Decoder401(_input))?;
 jpeg_frame_header::sof6(inner)
 },
 
 6 => {
-let inner = (Decoder405(_input))?;
+let inner = (Decoder402(_input))?;
 jpeg_frame_header::sof7(inner)
 },
 
 7 => {
-let inner = (Decoder406(_input))?;
+let inner = (Decoder403(_input))?;
 jpeg_frame_header::sof9(inner)
 },
 
 8 => {
-let inner = (Decoder407(_input))?;
+let inner = (Decoder404(_input))?;
 jpeg_frame_header::sof10(inner)
 },
 
 9 => {
-let inner = (Decoder408(_input))?;
+let inner = (Decoder405(_input))?;
 jpeg_frame_header::sof11(inner)
 },
 
 10 => {
-let inner = (Decoder409(_input))?;
+let inner = (Decoder406(_input))?;
 jpeg_frame_header::sof13(inner)
 },
 
 11 => {
-let inner = (Decoder410(_input))?;
+let inner = (Decoder407(_input))?;
 jpeg_frame_header::sof14(inner)
 },
 
 12 => {
-let inner = (Decoder411(_input))?;
+let inner = (Decoder408(_input))?;
 jpeg_frame_header::sof15(inner)
 },
 
@@ -34920,7 +34687,7 @@ return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 })
 }
 
-/// d#378
+/// d#375
 fn Decoder_jpeg_scan(_input: &mut Parser<'_>) -> Result<jpeg_scan, ParseError> {
 let segments = {
 let mut accum = Vec::new();
@@ -35040,11 +34807,11 @@ break
 accum
 };
 let sos = (Decoder_jpeg_sos(_input))?;
-let data = (Decoder398(_input))?;
+let data = (Decoder395(_input))?;
 PResult::Ok(jpeg_scan { segments, sos, data })
 }
 
-/// d#379
+/// d#376
 fn Decoder_jpeg_dnl(_input: &mut Parser<'_>) -> Result<jpeg_dnl, ParseError> {
 let marker = {
 {
@@ -35079,8 +34846,8 @@ ret
 PResult::Ok(jpeg_dnl { marker, length, data })
 }
 
-/// d#380
-fn Decoder380(_input: &mut Parser<'_>) -> Result<jpeg_scan, ParseError> {
+/// d#377
+fn Decoder377(_input: &mut Parser<'_>) -> Result<jpeg_scan, ParseError> {
 let segments = {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -35203,7 +34970,7 @@ let data = (Decoder_jpeg_scan_data(_input))?;
 PResult::Ok(jpeg_scan { segments, sos, data })
 }
 
-/// d#381
+/// d#378
 fn Decoder_jpeg_sos(_input: &mut Parser<'_>) -> Result<jpeg_sos, ParseError> {
 let marker = {
 {
@@ -35238,7 +35005,7 @@ ret
 PResult::Ok(jpeg_sos { marker, length, data })
 }
 
-/// d#382
+/// d#379
 fn Decoder_jpeg_scan_data(_input: &mut Parser<'_>) -> Result<jpeg_scan_data, ParseError> {
 let scan_data = {
 let mut accum = Vec::new();
@@ -35444,7 +35211,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(..) => {
 PResult::Ok(jpeg_scan_data { scan_data, scan_data_stream })
 }
 
-/// d#383
+/// d#380
 fn Decoder_jpeg_scan_data_entropy_coded_segment(_input: &mut Parser<'_>) -> Result<jpeg_scan_data_entropy_coded_segment, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -35508,47 +35275,47 @@ ret
 };
 PResult::Ok(match tree_index {
 0 => {
-let inner = (Decoder384(_input))?;
+let inner = (Decoder381(_input))?;
 jpeg_scan_data_entropy_coded_segment::mcu(inner)
 },
 
 1 => {
-let inner = (Decoder385(_input))?;
+let inner = (Decoder382(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst0(inner)
 },
 
 2 => {
-let inner = (Decoder386(_input))?;
+let inner = (Decoder383(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst1(inner)
 },
 
 3 => {
-let inner = (Decoder387(_input))?;
+let inner = (Decoder384(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst2(inner)
 },
 
 4 => {
-let inner = (Decoder388(_input))?;
+let inner = (Decoder385(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst3(inner)
 },
 
 5 => {
-let inner = (Decoder389(_input))?;
+let inner = (Decoder386(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst4(inner)
 },
 
 6 => {
-let inner = (Decoder390(_input))?;
+let inner = (Decoder387(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst5(inner)
 },
 
 7 => {
-let inner = (Decoder391(_input))?;
+let inner = (Decoder388(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst6(inner)
 },
 
 8 => {
-let inner = (Decoder392(_input))?;
+let inner = (Decoder389(_input))?;
 jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
@@ -35558,8 +35325,8 @@ return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 })
 }
 
-/// d#384
-fn Decoder384(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#381
+fn Decoder381(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 let tree_index = {
 _input.open_peek_context();
 {
@@ -35619,8 +35386,8 @@ return Err(ParseError::ExcludedBranch(663652071640520941u64));
 })
 }
 
-/// d#385
-fn Decoder385(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#382
+fn Decoder382(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35640,8 +35407,8 @@ return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#386
-fn Decoder386(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#383
+fn Decoder383(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35661,8 +35428,8 @@ return Err(ParseError::ExcludedBranch(49400955721755355u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#387
-fn Decoder387(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#384
+fn Decoder384(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35682,8 +35449,8 @@ return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#388
-fn Decoder388(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#385
+fn Decoder385(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35703,8 +35470,8 @@ return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#389
-fn Decoder389(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#386
+fn Decoder386(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35724,8 +35491,8 @@ return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#390
-fn Decoder390(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#387
+fn Decoder387(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35745,8 +35512,8 @@ return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#391
-fn Decoder391(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#388
+fn Decoder388(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35766,8 +35533,8 @@ return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#392
-fn Decoder392(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
+/// d#389
+fn Decoder389(_input: &mut Parser<'_>) -> Result<jpeg_soi, ParseError> {
 {
 let b = _input.read_byte()?;
 if b == 255 {
@@ -35787,7 +35554,7 @@ return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 PResult::Ok(jpeg_soi { marker })
 }
 
-/// d#393
+/// d#390
 fn Decoder_jpeg_sos_data(_input: &mut Parser<'_>) -> Result<jpeg_sos_data, ParseError> {
 let num_image_components = {
 let inner = _input.read_byte()?;
@@ -35837,14 +35604,14 @@ let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_positi
 PResult::Ok(jpeg_sos_data { num_image_components, image_components, start_spectral_selection, end_spectral_selection, approximation_bit_position })
 }
 
-/// d#394
+/// d#391
 fn Decoder_jpeg_sos_image_component(_input: &mut Parser<'_>) -> Result<jpeg_sos_image_component, ParseError> {
 let component_selector = _input.read_byte()?;
 let entropy_coding_table_ids = (Decoder_jpeg_sos_image_component_entropy_coding_table_ids(_input))?;
 PResult::Ok(jpeg_sos_image_component { component_selector, entropy_coding_table_ids })
 }
 
-/// d#395
+/// d#392
 fn Decoder_jpeg_sos_data_approximation_bit_position(_input: &mut Parser<'_>) -> Result<jpeg_sos_data_approximation_bit_position, ParseError> {
 let _packed_bits = _input.read_byte()?;
 let high = _packed_bits >> 4u8 & 15u8;
@@ -35852,7 +35619,7 @@ let low = _packed_bits & 15u8;
 PResult::Ok(jpeg_sos_data_approximation_bit_position { high, low })
 }
 
-/// d#396
+/// d#393
 fn Decoder_jpeg_sos_image_component_entropy_coding_table_ids(_input: &mut Parser<'_>) -> Result<jpeg_sos_image_component_entropy_coding_table_ids, ParseError> {
 let inner = {
 let _packed_bits = _input.read_byte()?;
@@ -35871,7 +35638,7 @@ return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
 })
 }
 
-/// d#397
+/// d#394
 fn Decoder_jpeg_dnl_data(_input: &mut Parser<'_>) -> Result<jpeg_dnl_data, ParseError> {
 let num_lines = {
 let inner = {
@@ -35891,8 +35658,8 @@ return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
 PResult::Ok(jpeg_dnl_data { num_lines })
 }
 
-/// d#398
-fn Decoder398(_input: &mut Parser<'_>) -> Result<jpeg_scan_data, ParseError> {
+/// d#395
+fn Decoder395(_input: &mut Parser<'_>) -> Result<jpeg_scan_data, ParseError> {
 let scan_data = {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -36101,7 +35868,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(..) => {
 PResult::Ok(jpeg_scan_data { scan_data, scan_data_stream })
 }
 
-/// d#399
+/// d#396
 fn Decoder_jpeg_sof0(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
@@ -36136,8 +35903,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#400
-fn Decoder400(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#397
+fn Decoder397(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36171,8 +35938,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#401
-fn Decoder401(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#398
+fn Decoder398(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36206,8 +35973,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#402
-fn Decoder402(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#399
+fn Decoder399(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36241,8 +36008,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#403
-fn Decoder403(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#400
+fn Decoder400(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36276,8 +36043,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#404
-fn Decoder404(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#401
+fn Decoder401(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36311,8 +36078,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#405
-fn Decoder405(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#402
+fn Decoder402(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36346,8 +36113,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#406
-fn Decoder406(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#403
+fn Decoder403(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36381,8 +36148,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#407
-fn Decoder407(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#404
+fn Decoder404(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36416,8 +36183,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#408
-fn Decoder408(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#405
+fn Decoder405(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36451,8 +36218,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#409
-fn Decoder409(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#406
+fn Decoder406(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36486,8 +36253,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#410
-fn Decoder410(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#407
+fn Decoder407(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36521,8 +36288,8 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#411
-fn Decoder411(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#408
+fn Decoder408(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36556,7 +36323,7 @@ ret
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#412
+/// d#409
 fn Decoder_jpeg_sof_data(_input: &mut Parser<'_>) -> Result<jpeg_sof_data, ParseError> {
 let sample_precision = {
 let inner = _input.read_byte()?;
@@ -36612,7 +36379,7 @@ accum
 PResult::Ok(jpeg_sof_data { sample_precision, num_lines, num_samples_per_line, num_image_components, image_components })
 }
 
-/// d#413
+/// d#410
 fn Decoder_jpeg_sof_image_component(_input: &mut Parser<'_>) -> Result<jpeg_sof_image_component, ParseError> {
 let id = _input.read_byte()?;
 let sampling_factor = {
@@ -36636,7 +36403,7 @@ return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
 }
 
-/// d#414
+/// d#411
 fn Decoder_jpeg_dqt(_input: &mut Parser<'_>) -> Result<jpeg_dqt, ParseError> {
 let marker = {
 {
@@ -36702,7 +36469,7 @@ ret
 PResult::Ok(jpeg_dqt { marker, length, data })
 }
 
-/// d#415
+/// d#412
 fn Decoder_jpeg_dht(_input: &mut Parser<'_>) -> Result<jpeg_dht, ParseError> {
 let marker = {
 {
@@ -36737,7 +36504,7 @@ ret
 PResult::Ok(jpeg_dht { marker, length, data })
 }
 
-/// d#416
+/// d#413
 fn Decoder_jpeg_dac(_input: &mut Parser<'_>) -> Result<jpeg_dac, ParseError> {
 let marker = {
 {
@@ -36772,7 +36539,7 @@ ret
 PResult::Ok(jpeg_dac { marker, length, data })
 }
 
-/// d#417
+/// d#414
 fn Decoder_jpeg_dri(_input: &mut Parser<'_>) -> Result<jpeg_dri, ParseError> {
 let marker = {
 {
@@ -36807,7 +36574,7 @@ ret
 PResult::Ok(jpeg_dri { marker, length, data })
 }
 
-/// d#418
+/// d#415
 fn Decoder_jpeg_app0(_input: &mut Parser<'_>) -> Result<jpeg_app0, ParseError> {
 let marker = {
 {
@@ -36842,7 +36609,7 @@ ret
 PResult::Ok(jpeg_app0 { marker, length, data })
 }
 
-/// d#419
+/// d#416
 fn Decoder_jpeg_app1(_input: &mut Parser<'_>) -> Result<jpeg_app1, ParseError> {
 let marker = {
 {
@@ -36877,7 +36644,7 @@ ret
 PResult::Ok(jpeg_app1 { marker, length, data })
 }
 
-/// d#420
+/// d#417
 fn Decoder_jpeg_app2(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
@@ -36936,8 +36703,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#421
-fn Decoder421(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#418
+fn Decoder418(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -36995,8 +36762,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#422
-fn Decoder422(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#419
+fn Decoder419(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37054,8 +36821,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#423
-fn Decoder423(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#420
+fn Decoder420(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37113,8 +36880,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#424
-fn Decoder424(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#421
+fn Decoder421(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37172,8 +36939,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#425
-fn Decoder425(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#422
+fn Decoder422(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37231,8 +36998,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#426
-fn Decoder426(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#423
+fn Decoder423(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37290,8 +37057,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#427
-fn Decoder427(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#424
+fn Decoder424(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37349,8 +37116,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#428
-fn Decoder428(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#425
+fn Decoder425(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37408,8 +37175,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#429
-fn Decoder429(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#426
+fn Decoder426(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37467,8 +37234,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#430
-fn Decoder430(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#427
+fn Decoder427(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37526,8 +37293,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#431
-fn Decoder431(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#428
+fn Decoder428(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37585,8 +37352,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#432
-fn Decoder432(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#429
+fn Decoder429(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37644,8 +37411,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#433
-fn Decoder433(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#430
+fn Decoder430(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37703,8 +37470,8 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#434
-fn Decoder434(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#431
+fn Decoder431(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
@@ -37762,7 +37529,7 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#435
+/// d#432
 fn Decoder_jpeg_app1_data(_input: &mut Parser<'_>) -> Result<jpeg_app1_data, ParseError> {
 let identifier = {
 let chars = {
@@ -37818,7 +37585,7 @@ let data = (Decoder_jpeg_app1_data_data(_input, &identifier))?;
 PResult::Ok(jpeg_app1_data { identifier, data })
 }
 
-/// d#436
+/// d#433
 fn Decoder_jpeg_app1_data_data(_input: &mut Parser<'_>, identifier: &[u8]) -> Result<jpeg_app1_data_data, ParseError> {
 PResult::Ok(match slice_all(&identifier) {
 [69u8, 120u8, 105u8, 102u8] => {
@@ -37862,7 +37629,7 @@ jpeg_app1_data_data::other(inner)
 })
 }
 
-/// d#437
+/// d#434
 fn Decoder_jpeg_app1_exif(_input: &mut Parser<'_>) -> Result<jpeg_app1_exif, ParseError> {
 let padding = {
 let b = _input.read_byte()?;
@@ -37876,7 +37643,7 @@ let exif = (Decoder_tiff_main(_input))?;
 PResult::Ok(jpeg_app1_exif { padding, exif })
 }
 
-/// d#438
+/// d#435
 fn Decoder_jpeg_app1_xmp(_input: &mut Parser<'_>) -> Result<jpeg_app1_xmp, ParseError> {
 let xmp = {
 let mut accum = Vec::new();
@@ -37906,7 +37673,7 @@ accum
 PResult::Ok(jpeg_app1_xmp { xmp })
 }
 
-/// d#439
+/// d#436
 fn Decoder_jpeg_app0_data(_input: &mut Parser<'_>) -> Result<jpeg_app0_data, ParseError> {
 let identifier = {
 let chars = {
@@ -37962,7 +37729,7 @@ let data = (Decoder_jpeg_app0_data_data(_input, &identifier))?;
 PResult::Ok(jpeg_app0_data { identifier, data })
 }
 
-/// d#440
+/// d#437
 fn Decoder_jpeg_app0_data_data(_input: &mut Parser<'_>, identifier: &[u8]) -> Result<jpeg_app0_data_data, ParseError> {
 PResult::Ok(match slice_all(&identifier) {
 [74u8, 70u8, 73u8, 70u8] => {
@@ -38001,7 +37768,7 @@ jpeg_app0_data_data::other(inner)
 })
 }
 
-/// d#441
+/// d#438
 fn Decoder_jpeg_app0_jfif(_input: &mut Parser<'_>) -> Result<jpeg_app0_jfif, ParseError> {
 let version_major = _input.read_byte()?;
 let version_minor = _input.read_byte()?;
@@ -38067,7 +37834,7 @@ accum
 PResult::Ok(jpeg_app0_jfif { version_major, version_minor, density_units, density_x, density_y, thumbnail_width, thumbnail_height, thumbnail_pixels })
 }
 
-/// d#442
+/// d#439
 fn Decoder_gif_color_table_entry(_input: &mut Parser<'_>) -> Result<gif_color_table_entry, ParseError> {
 let r = _input.read_byte()?;
 let g = _input.read_byte()?;
@@ -38075,7 +37842,7 @@ let b = _input.read_byte()?;
 PResult::Ok(gif_color_table_entry { r, g, b })
 }
 
-/// d#443
+/// d#440
 fn Decoder_jpeg_dri_data(_input: &mut Parser<'_>) -> Result<jpeg_dri_data, ParseError> {
 let restart_interval = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -38084,14 +37851,14 @@ u16be(x)
 PResult::Ok(jpeg_dri_data { restart_interval })
 }
 
-/// d#444
+/// d#441
 fn Decoder_jpeg_dac_data(_input: &mut Parser<'_>) -> Result<jpeg_dac_data, ParseError> {
 let class_table_id = (Decoder_jpeg_class_table_id(_input))?;
 let value = _input.read_byte()?;
 PResult::Ok(jpeg_dac_data { class_table_id, value })
 }
 
-/// d#445
+/// d#442
 fn Decoder_jpeg_class_table_id(_input: &mut Parser<'_>) -> Result<jpeg_class_table_id, ParseError> {
 let inner = {
 let _packed_bits = _input.read_byte()?;
@@ -38110,7 +37877,7 @@ return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
 })
 }
 
-/// d#446
+/// d#443
 fn Decoder_jpeg_dht_data(_input: &mut Parser<'_>) -> Result<jpeg_dht_data, ParseError> {
 let class_table_id = (Decoder_jpeg_class_table_id(_input))?;
 let num_codes = {
@@ -38139,14 +37906,14 @@ accum
 PResult::Ok(jpeg_dht_data { class_table_id, num_codes, values })
 }
 
-/// d#447
+/// d#444
 fn Decoder_jpeg_dqt_data(_input: &mut Parser<'_>) -> Result<jpeg_dqt_data, ParseError> {
 let precision_table_id = (Decoder_jpeg_precision_table_id(_input))?;
 let elements = (Decoder_jpeg_dqt_data_elements(_input, precision_table_id.precision))?;
 PResult::Ok(jpeg_dqt_data { precision_table_id, elements })
 }
 
-/// d#448
+/// d#445
 fn Decoder_jpeg_precision_table_id(_input: &mut Parser<'_>) -> Result<jpeg_precision_table_id, ParseError> {
 let inner = {
 let _packed_bits = _input.read_byte()?;
@@ -38165,7 +37932,7 @@ return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
 })
 }
 
-/// d#449
+/// d#446
 fn Decoder_jpeg_dqt_data_elements(_input: &mut Parser<'_>, precision: u8) -> Result<jpeg_dqt_data_elements, ParseError> {
 PResult::Ok(match precision {
 0u8 => {
@@ -38201,115 +37968,8 @@ return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 })
 }
 
-/// d#450
-fn Decoder450(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
-let chars = {
-let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-{
-let ret = match _input.read_byte()? {
-byte if (byte != 0) => {
-0
-},
-
-0u8 => {
-1
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-let next_elem = {
-let b = _input.read_byte()?;
-if b != 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
-}
-};
-accum.push(next_elem)
-} else {
-break
-}
-};
-accum
-};
-{
-let b = _input.read_byte()?;
-if b == 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
-}
-};
-PResult::Ok(chars.clone())
-}
-
-/// d#451
-fn Decoder451(_input: &mut Parser<'_>) -> Result<gzip_fcomment, ParseError> {
-let comment = {
-let chars = {
-let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-{
-let ret = match _input.read_byte()? {
-byte if (byte != 0) => {
-0
-},
-
-0u8 => {
-1
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-let next_elem = {
-let b = _input.read_byte()?;
-if b != 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
-}
-};
-accum.push(next_elem)
-} else {
-break
-}
-};
-accum
-};
-{
-let b = _input.read_byte()?;
-if b == 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
-}
-};
-chars.clone()
-};
-PResult::Ok(gzip_fcomment { comment })
-}
-
-/// d#452
-fn Decoder452(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
+/// d#447
+fn Decoder447(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
@@ -38344,12 +38004,12 @@ Some((Decoder_gzip_fextra(_input))?)
 None
 };
 let fname = if header.file_flags.fname {
-Some((Decoder454(_input))?)
+Some((Decoder82(_input))?)
 } else {
 None
 };
 let fcomment = if header.file_flags.fcomment {
-Some((Decoder455(_input))?)
+Some((Decoder_gzip_fcomment(_input))?)
 } else {
 None
 };
@@ -38376,8 +38036,8 @@ return Err(ParseError::InsufficientRepeats);
 PResult::Ok(accum)
 }
 
-/// d#453
-fn Decoder453(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
+/// d#448
+fn Decoder448(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
 while _input.remaining() > 0 {
@@ -38394,7 +38054,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 _input.close_peek_context()?;
@@ -38425,7 +38085,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 accum.push(next_elem)
@@ -38458,7 +38118,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 accum.push(next_elem)
@@ -38471,114 +38131,7 @@ accum
 PResult::Ok(tar_main { contents })
 }
 
-/// d#454
-fn Decoder454(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
-let chars = {
-let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-{
-let ret = match _input.read_byte()? {
-byte if (byte != 0) => {
-0
-},
-
-0u8 => {
-1
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-let next_elem = {
-let b = _input.read_byte()?;
-if b != 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
-}
-};
-accum.push(next_elem)
-} else {
-break
-}
-};
-accum
-};
-{
-let b = _input.read_byte()?;
-if b == 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
-}
-};
-PResult::Ok(chars.clone())
-}
-
-/// d#455
-fn Decoder455(_input: &mut Parser<'_>) -> Result<gzip_fcomment, ParseError> {
-let comment = {
-let chars = {
-let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-{
-let ret = match _input.read_byte()? {
-byte if (byte != 0) => {
-0
-},
-
-0u8 => {
-1
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-let next_elem = {
-let b = _input.read_byte()?;
-if b != 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
-}
-};
-accum.push(next_elem)
-} else {
-break
-}
-};
-accum
-};
-{
-let b = _input.read_byte()?;
-if b == 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
-}
-};
-chars.clone()
-};
-PResult::Ok(gzip_fcomment { comment })
-}
-
-/// d#456
+/// d#449
 fn Decoder_gif_header(_input: &mut Parser<'_>) -> Result<gif_header, ParseError> {
 let signature = {
 let arg0 = {
@@ -38586,7 +38139,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 let arg1 = {
@@ -38594,7 +38147,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 let arg2 = {
@@ -38602,7 +38155,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38611,13 +38164,13 @@ let version = vec![_input.read_byte()?, _input.read_byte()?, _input.read_byte()?
 PResult::Ok(gif_header { signature, version })
 }
 
-/// d#457
+/// d#450
 fn Decoder_gif_logical_screen(_input: &mut Parser<'_>) -> Result<gif_logical_screen, ParseError> {
 let descriptor = (Decoder_gif_logical_screen_descriptor(_input))?;
 let global_color_table = if descriptor.flags.table_flag {
 let mut accum = Vec::new();
 for _ in 0..2u16 << (descriptor.flags.table_size as u16) {
-let next_elem = (Decoder471(_input))?;
+let next_elem = (Decoder464(_input))?;
 accum.push(next_elem)
 };
 Some(accum)
@@ -38627,7 +38180,7 @@ None
 PResult::Ok(gif_logical_screen { descriptor, global_color_table })
 }
 
-/// d#458
+/// d#451
 fn Decoder_gif_block(_input: &mut Parser<'_>) -> Result<gif_block, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -38652,7 +38205,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 }
 },
@@ -38662,7 +38215,7 @@ return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 _input.close_peek_context()?;
@@ -38681,25 +38234,25 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 })
 }
 
-/// d#459
+/// d#452
 fn Decoder_gif_trailer(_input: &mut Parser<'_>) -> Result<gif_trailer, ParseError> {
 let separator = {
 let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
 }
 
-/// d#460
+/// d#453
 fn Decoder_gif_graphic_block(_input: &mut Parser<'_>) -> Result<gif_graphic_block, ParseError> {
 let graphic_control_extension = {
 let tree_index = {
@@ -38717,7 +38270,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 }
 },
@@ -38727,7 +38280,7 @@ return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 _input.close_peek_context()?;
@@ -38744,7 +38297,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 }
 };
@@ -38752,7 +38305,7 @@ let graphic_rendering_block = (Decoder_gif_graphic_rendering_block(_input))?;
 PResult::Ok(gif_graphic_block { graphic_control_extension, graphic_rendering_block })
 }
 
-/// d#461
+/// d#454
 fn Decoder_gif_special_purpose_block(_input: &mut Parser<'_>) -> Result<gif_special_purpose_block, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -38769,11 +38322,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38791,19 +38344,19 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 })
 }
 
-/// d#462
+/// d#455
 fn Decoder_gif_application_extension(_input: &mut Parser<'_>) -> Result<gif_application_extension, ParseError> {
 let separator = {
 let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 let label = {
@@ -38811,7 +38364,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 let block_size = {
@@ -38819,7 +38372,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 let identifier = {
@@ -38847,7 +38400,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 _input.close_peek_context()?;
@@ -38863,18 +38416,18 @@ break
 };
 accum
 };
-let terminator = (Decoder465(_input))?;
+let terminator = (Decoder458(_input))?;
 PResult::Ok(gif_application_extension { separator, label, block_size, identifier, authentication_code, application_data, terminator })
 }
 
-/// d#463
+/// d#456
 fn Decoder_gif_comment_extension(_input: &mut Parser<'_>) -> Result<gif_comment_extension, ParseError> {
 let separator = {
 let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 let label = {
@@ -38882,7 +38435,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 let comment_data = {
@@ -38901,7 +38454,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 _input.close_peek_context()?;
@@ -38917,18 +38470,18 @@ break
 };
 accum
 };
-let terminator = (Decoder465(_input))?;
+let terminator = (Decoder458(_input))?;
 PResult::Ok(gif_comment_extension { separator, label, comment_data, terminator })
 }
 
-/// d#464
+/// d#457
 fn Decoder_gif_subblock(_input: &mut Parser<'_>) -> Result<gif_subblock, ParseError> {
 let len_bytes = {
 let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 let data = {
@@ -38942,24 +38495,24 @@ accum
 PResult::Ok(gif_subblock { len_bytes, data })
 }
 
-/// d#465
-fn Decoder465(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
+/// d#458
+fn Decoder458(_input: &mut Parser<'_>) -> Result<u8, ParseError> {
 let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 })
 }
 
-/// d#466
+/// d#459
 fn Decoder_gif_graphic_control_extension(_input: &mut Parser<'_>) -> Result<gif_graphic_control_extension, ParseError> {
 let separator = {
 let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 let label = {
@@ -38967,7 +38520,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 let block_size = {
@@ -38975,7 +38528,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38984,11 +38537,11 @@ let x = (_input.read_byte()?, _input.read_byte()?);
 u16le(x)
 };
 let transparent_color_index = _input.read_byte()?;
-let terminator = (Decoder465(_input))?;
+let terminator = (Decoder458(_input))?;
 PResult::Ok(gif_graphic_control_extension { separator, label, block_size, flags, delay_time, transparent_color_index, terminator })
 }
 
-/// d#467
+/// d#460
 fn Decoder_gif_graphic_rendering_block(_input: &mut Parser<'_>) -> Result<gif_graphic_rendering_block, ParseError> {
 let tree_index = {
 _input.open_peek_context();
@@ -39003,7 +38556,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 _input.close_peek_context()?;
@@ -39022,18 +38575,18 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 })
 }
 
-/// d#468
+/// d#461
 fn Decoder_gif_table_based_image(_input: &mut Parser<'_>) -> Result<gif_table_based_image, ParseError> {
 let descriptor = (Decoder_gif_image_descriptor(_input))?;
 let local_color_table = if descriptor.flags.table_flag {
 let mut accum = Vec::new();
 for _ in 0..2u16 << (descriptor.flags.table_size as u16) {
-let next_elem = (Decoder471(_input))?;
+let next_elem = (Decoder464(_input))?;
 accum.push(next_elem)
 };
 Some(accum)
@@ -39044,14 +38597,14 @@ let data = (Decoder_gif_table_based_image_data(_input))?;
 PResult::Ok(gif_table_based_image { descriptor, local_color_table, data })
 }
 
-/// d#469
+/// d#462
 fn Decoder_gif_plain_text_extension(_input: &mut Parser<'_>) -> Result<gif_plain_text_extension, ParseError> {
 let separator = {
 let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 let label = {
@@ -39059,7 +38612,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 let block_size = {
@@ -39067,7 +38620,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 let text_grid_left_position = {
@@ -39106,7 +38659,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 _input.close_peek_context()?;
@@ -39122,18 +38675,18 @@ break
 };
 accum
 };
-let terminator = (Decoder465(_input))?;
+let terminator = (Decoder458(_input))?;
 PResult::Ok(gif_plain_text_extension { separator, label, block_size, text_grid_left_position, text_grid_top_position, text_grid_width, text_grid_height, character_cell_width, character_cell_height, text_foreground_color_index, text_background_color_index, plain_text_data, terminator })
 }
 
-/// d#470
+/// d#463
 fn Decoder_gif_image_descriptor(_input: &mut Parser<'_>) -> Result<gif_image_descriptor, ParseError> {
 let separator = {
 let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 let image_left_position = {
@@ -39156,15 +38709,15 @@ let flags = (Decoder_gif_image_descriptor_flags(_input))?;
 PResult::Ok(gif_image_descriptor { separator, image_left_position, image_top_position, image_width, image_height, flags })
 }
 
-/// d#471
-fn Decoder471(_input: &mut Parser<'_>) -> Result<gif_color_table_entry, ParseError> {
+/// d#464
+fn Decoder464(_input: &mut Parser<'_>) -> Result<gif_color_table_entry, ParseError> {
 let r = _input.read_byte()?;
 let g = _input.read_byte()?;
 let b = _input.read_byte()?;
 PResult::Ok(gif_color_table_entry { r, g, b })
 }
 
-/// d#472
+/// d#465
 fn Decoder_gif_table_based_image_data(_input: &mut Parser<'_>) -> Result<gif_table_based_image_data, ParseError> {
 let lzw_min_code_size = _input.read_byte()?;
 let image_data = {
@@ -39183,7 +38736,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 _input.close_peek_context()?;
@@ -39199,11 +38752,11 @@ break
 };
 accum
 };
-let terminator = (Decoder465(_input))?;
+let terminator = (Decoder458(_input))?;
 PResult::Ok(gif_table_based_image_data { lzw_min_code_size, image_data, terminator })
 }
 
-/// d#473
+/// d#466
 fn Decoder_gif_image_descriptor_flags(_input: &mut Parser<'_>) -> Result<gif_image_descriptor_flags, ParseError> {
 let _packed_bits = _input.read_byte()?;
 let table_flag = _packed_bits >> 7u8 & 1u8 > 0u8;
@@ -39213,7 +38766,7 @@ let table_size = _packed_bits & 7u8;
 PResult::Ok(gif_image_descriptor_flags { table_flag, interlace_flag, sort_flag, table_size })
 }
 
-/// d#474
+/// d#467
 fn Decoder_gif_graphic_control_extension_flags(_input: &mut Parser<'_>) -> Result<gif_graphic_control_extension_flags, ParseError> {
 let _packed_bits = _input.read_byte()?;
 let disposal_method = _packed_bits >> 2u8 & 7u8;
@@ -39222,7 +38775,7 @@ let transparent_color_flag = _packed_bits & 1u8 > 0u8;
 PResult::Ok(gif_graphic_control_extension_flags { disposal_method, user_input_flag, transparent_color_flag })
 }
 
-/// d#475
+/// d#468
 fn Decoder_gif_logical_screen_descriptor(_input: &mut Parser<'_>) -> Result<gif_logical_screen_descriptor, ParseError> {
 let screen_width = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -39238,7 +38791,7 @@ let pixel_aspect_ratio = _input.read_byte()?;
 PResult::Ok(gif_logical_screen_descriptor { screen_width, screen_height, flags, bg_color_index, pixel_aspect_ratio })
 }
 
-/// d#476
+/// d#469
 fn Decoder_gif_logical_screen_descriptor_flags(_input: &mut Parser<'_>) -> Result<gif_logical_screen_descriptor_flags, ParseError> {
 let _packed_bits = _input.read_byte()?;
 let table_flag = _packed_bits >> 7u8 & 1u8 > 0u8;
@@ -39248,8 +38801,8 @@ let table_size = _packed_bits & 7u8;
 PResult::Ok(gif_logical_screen_descriptor_flags { table_flag, color_resolution, sort_flag, table_size })
 }
 
-/// d#477
-fn Decoder477(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
+/// d#470
+fn Decoder470(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
 let tuple_var = {
 let arg0 = {
 let mut accum = Vec::new();
@@ -39315,55 +38868,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 };
 _input.close_peek_context()?;
@@ -39378,7 +38931,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 accum.push(next_elem)
@@ -39392,7 +38945,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 (arg0, arg1)
@@ -39403,7 +38956,7 @@ let (s, _z) = tuple_var;
 })
 }
 
-/// d#478
+/// d#471
 fn Decoder_jpeg_dhp_image_component_sampling_factor(_input: &mut Parser<'_>) -> Result<jpeg_dhp_image_component_sampling_factor, ParseError> {
 let _packed_bits = _input.read_byte()?;
 let horizontal = _packed_bits >> 4u8 & 15u8;
@@ -39411,31 +38964,31 @@ let vertical = _packed_bits & 15u8;
 PResult::Ok(jpeg_dhp_image_component_sampling_factor { horizontal, vertical })
 }
 
-/// d#479
-fn Decoder479(_input: &mut Parser<'_>) -> Result<jpeg_sof_image_component, ParseError> {
+/// d#472
+fn Decoder472(_input: &mut Parser<'_>) -> Result<jpeg_sof_image_component, ParseError> {
 let id = _input.read_byte()?;
-let sampling_factor = (Decoder480(_input))?;
+let sampling_factor = (Decoder473(_input))?;
 let quantization_table_id = {
 let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
 }
 
-/// d#480
-fn Decoder480(_input: &mut Parser<'_>) -> Result<jpeg_dhp_image_component_sampling_factor, ParseError> {
+/// d#473
+fn Decoder473(_input: &mut Parser<'_>) -> Result<jpeg_dhp_image_component_sampling_factor, ParseError> {
 let _packed_bits = _input.read_byte()?;
 let horizontal = _packed_bits >> 4u8 & 15u8;
 let vertical = _packed_bits & 15u8;
 PResult::Ok(jpeg_dhp_image_component_sampling_factor { horizontal, vertical })
 }
 
-/// d#481
-fn Decoder481(_input: &mut Parser<'_>) -> Result<jpeg_sof_data, ParseError> {
+/// d#474
+fn Decoder474(_input: &mut Parser<'_>) -> Result<jpeg_sof_data, ParseError> {
 let sample_precision = _input.read_byte()?;
 let num_lines = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -39453,7 +39006,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
+return Err(ParseError::FalsifiedWhere(18414062761433945694u64));
 }
 };
 let num_image_components = {
@@ -39465,13 +39018,13 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8003682420837492218u64));
+return Err(ParseError::FalsifiedWhere(16815582401460622228u64));
 }
 };
 let image_components = {
 let mut accum = Vec::new();
 for _ in 0..num_image_components {
-let next_elem = (Decoder482(_input))?;
+let next_elem = (Decoder475(_input))?;
 accum.push(next_elem)
 };
 accum
@@ -39479,22 +39032,22 @@ accum
 PResult::Ok(jpeg_sof_data { sample_precision, num_lines, num_samples_per_line, num_image_components, image_components })
 }
 
-/// d#482
-fn Decoder482(_input: &mut Parser<'_>) -> Result<jpeg_sof_image_component, ParseError> {
+/// d#475
+fn Decoder475(_input: &mut Parser<'_>) -> Result<jpeg_sof_image_component, ParseError> {
 let id = _input.read_byte()?;
-let sampling_factor = (Decoder480(_input))?;
+let sampling_factor = (Decoder473(_input))?;
 let quantization_table_id = {
 let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
 }
 
-/// d#483
+/// d#476
 fn Decoder_jpeg_exp_data(_input: &mut Parser<'_>) -> Result<jpeg_exp_data, ParseError> {
 let expand_horizontal_vertical = {
 let inner = {
@@ -39510,21 +39063,21 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
+return Err(ParseError::FalsifiedWhere(6170312119912404925u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
 }
 
-/// d#484
-fn Decoder484(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
+/// d#477
+fn Decoder477(_input: &mut Parser<'_>) -> Result<jpeg_app2, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17498679062468273557u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 };
 let marker = {
@@ -39532,7 +39085,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 };
 jpeg_soi { marker }
@@ -39575,15 +39128,15 @@ ret
 PResult::Ok(jpeg_app2 { marker, length, data })
 }
 
-/// d#485
-fn Decoder485(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
+/// d#478
+fn Decoder478(_input: &mut Parser<'_>) -> Result<jpeg_sof0, ParseError> {
 let marker = {
 {
 let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9104412661124805519u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 };
 let marker = {
@@ -39591,7 +39144,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 };
 jpeg_soi { marker }
@@ -39603,15 +39156,15 @@ u16be(x)
 let data = {
 let sz = (try_sub!(length, 2u16, 11599300513837427027u64)) as usize;
 _input.start_slice(sz)?;
-let ret = (Decoder486(_input))?;
+let ret = (Decoder479(_input))?;
 _input.end_slice()?;
 ret
 };
 PResult::Ok(jpeg_sof0 { marker, length, data })
 }
 
-/// d#486
-fn Decoder486(_input: &mut Parser<'_>) -> Result<jpeg_sof_data, ParseError> {
+/// d#479
+fn Decoder479(_input: &mut Parser<'_>) -> Result<jpeg_sof_data, ParseError> {
 let sample_precision = _input.read_byte()?;
 let num_lines = {
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -39629,7 +39182,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13391927636850586680u64));
+return Err(ParseError::FalsifiedWhere(8834940284440365505u64));
 }
 };
 let num_image_components = {
@@ -39641,13 +39194,13 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5585407796242218698u64));
+return Err(ParseError::FalsifiedWhere(11138532932579103751u64));
 }
 };
 let image_components = {
 let mut accum = Vec::new();
 for _ in 0..num_image_components {
-let next_elem = (Decoder482(_input))?;
+let next_elem = (Decoder475(_input))?;
 accum.push(next_elem)
 };
 accum
@@ -39655,7 +39208,7 @@ accum
 PResult::Ok(jpeg_sof_data { sample_precision, num_lines, num_samples_per_line, num_image_components, image_components })
 }
 
-/// d#487
+/// d#480
 fn Decoder_jpeg_exp(_input: &mut Parser<'_>) -> Result<jpeg_exp, ParseError> {
 let marker = {
 {
@@ -39663,7 +39216,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 };
 let marker = {
@@ -39671,7 +39224,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(401211890982280023u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 };
 jpeg_soi { marker }
@@ -39683,15 +39236,15 @@ u16be(x)
 let data = {
 let sz = (try_sub!(length, 2u16, 950046280632689001u64)) as usize;
 _input.start_slice(sz)?;
-let ret = (Decoder488(_input))?;
+let ret = (Decoder481(_input))?;
 _input.end_slice()?;
 ret
 };
 PResult::Ok(jpeg_exp { marker, length, data })
 }
 
-/// d#488
-fn Decoder488(_input: &mut Parser<'_>) -> Result<jpeg_exp_data, ParseError> {
+/// d#481
+fn Decoder481(_input: &mut Parser<'_>) -> Result<jpeg_exp_data, ParseError> {
 let expand_horizontal_vertical = {
 let inner = {
 let _packed_bits = _input.read_byte()?;
@@ -39706,7 +39259,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
+return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index 0c80890..465d8a6 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -610,7 +610,7 @@ impl<'a> GTCompiler<'a> {
                 ))
             }
             TypedFormat::Maybe(gt, cond, a) => {
-                let da = Box::new(self.compile_gt_format(a, None, next)?);
+                let da = Box::new(self.compile_gt_format(a, None, Rc::new(Next::Empty))?);
                 Ok(TypedDecoder::Maybe(gt.clone(), cond.clone(), da))
             }
             TypedFormat::Peek(gt, a) => {
-- 
2.43.0


From 26682a18a180e5d056c5e7d2e8429b710be41f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:47 +0000
Subject: [PATCH 51/59] fix: generated repetitions decide the end of the input
 by lookahead, and Repeat1 after its first element

---
 generated/gencode.rs | 384 ++++++++++++++++---------------------------
 src/codegen/mod.rs   |  66 +++-----
 2 files changed, 168 insertions(+), 282 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 54b9789..095d083 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8854,7 +8854,7 @@ u64be(x)
 };
 let noise = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -8911,7 +8911,9 @@ PResult::Ok(waldo_main { r#where, noise, waldo })
 /// d#3
 fn Decoder3(_input: &mut Parser<'_>) -> Result<Vec<u32>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder470(_input))?;
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -8937,18 +8939,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = (Decoder470(_input))?;
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 PResult::Ok(accum)
 }
@@ -8959,7 +8951,7 @@ let header = (Decoder_gif_header(_input))?;
 let logical_screen = (Decoder_gif_logical_screen(_input))?;
 let blocks = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9015,31 +9007,7 @@ PResult::Ok(accum)
 /// d#6
 fn Decoder6(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-{
-let ret = if _input.remaining() == 0 {
-0
-} else {
-let b = _input.read_byte()?;
-if b == 31 {
-1
-} else {
-0
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
-break
-}
-} else {
+loop {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
 let fextra = if header.file_flags.fextra {
@@ -9071,11 +9039,27 @@ ret
 let footer = (Decoder_gzip_footer(_input))?;
 gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 };
-accum.push(next_elem)
+accum.push(next_elem);
+let matching_ix = {
+_input.open_peek_context();
+{
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
+1
+} else {
+0
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
+_input.close_peek_context()?;
+ret
+}
+};
+if matching_ix == 0 {
+break
+}
 };
 PResult::Ok(accum)
 }
@@ -9190,7 +9174,7 @@ vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
 let ihdr = (Decoder_png_ihdr(_input))?;
 let chunks = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9268,7 +9252,9 @@ let idat = {
 let idat = {
 let xs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_png_idat(_input))?;
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9334,18 +9320,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = (Decoder_png_idat(_input))?;
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 accum
 };
@@ -9357,7 +9333,7 @@ let buf_input = &mut buf_parser;
 };
 let more_chunks = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9537,7 +9513,9 @@ PResult::Ok(tiff_main { start_of_header, byte_order, magic, offset, ifd })
 fn Decoder_tar_main(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_tar_header_with_data(_input))?;
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9559,18 +9537,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = (Decoder_tar_header_with_data(_input))?;
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 accum
 };
@@ -14477,31 +14445,7 @@ PResult::Ok(accum)
 /// d#79
 fn Decoder79(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-{
-let ret = if _input.remaining() == 0 {
-0
-} else {
-let b = _input.read_byte()?;
-if b == 31 {
-1
-} else {
-0
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
-break
-}
-} else {
+loop {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
 let fextra = if header.file_flags.fextra {
@@ -14533,11 +14477,27 @@ ret
 let footer = (Decoder_gzip_footer(_input))?;
 gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 };
-accum.push(next_elem)
+accum.push(next_elem);
+let matching_ix = {
+_input.open_peek_context();
+{
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
+1
+} else {
+0
+}
+};
+_input.close_peek_context()?;
+ret
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
+if matching_ix == 0 {
+break
+}
 };
 PResult::Ok(accum)
 }
@@ -14618,7 +14578,7 @@ PResult::Ok(gzip_fextra { xlen, subfields })
 fn Decoder82(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -14671,7 +14631,7 @@ fn Decoder_gzip_fcomment(_input: &mut Parser<'_>) -> Result<gzip_fcomment, Parse
 let comment = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -22665,7 +22625,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -22750,7 +22710,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -22835,7 +22795,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23049,7 +23009,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23134,7 +23094,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23311,7 +23271,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23396,7 +23356,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23507,7 +23467,16 @@ PResult::Ok(ret)
 fn Decoder_tar_ascii_string_opt0_nonempty(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = {
+let b = _input.read_byte()?;
+if b != 0 {
+b
+} else {
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+}
+};
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23533,25 +23502,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if b != 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
-}
-};
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 accum
 };
@@ -23692,7 +23644,7 @@ PResult::Ok(tar_ascii_string_opt0_nonempty { string })
 fn Decoder267(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23731,7 +23683,16 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = {
+let b = _input.read_byte()?;
+if b == 0 {
+b
+} else {
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+}
+};
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23750,25 +23711,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if b == 0 {
-b
-} else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
-}
-};
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 accum
 };
@@ -24568,7 +24512,14 @@ PResult::Ok(accum)
 /// d#284
 fn Decoder284(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = {
+let r = _input.read_byte()?;
+let g = _input.read_byte()?;
+let b = _input.read_byte()?;
+gif_color_table_entry { r, g, b }
+};
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -24583,23 +24534,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = {
-let r = _input.read_byte()?;
-let g = _input.read_byte()?;
-let b = _input.read_byte()?;
-gif_color_table_entry { r, g, b }
-};
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 PResult::Ok(accum)
 }
@@ -24854,7 +24790,7 @@ return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 let language_tag = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -25324,7 +25260,7 @@ PResult::Ok(png_time { year, month, day, hour, minute, second })
 /// d#299
 fn Decoder299(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
+while accum.len() < (79u32 as usize) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -26295,14 +26231,13 @@ return Err(ParseError::ExcludedBranch(496554245154466536u64));
 accum.push(next_elem)
 }
 };
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
 /// d#300
 fn Decoder300(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
+while accum.len() < (79u32 as usize) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -27273,7 +27208,6 @@ return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 accum.push(next_elem)
 }
 };
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -27325,7 +27259,7 @@ PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32
 /// d#302
 fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
+while accum.len() < (79u32 as usize) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -28296,14 +28230,13 @@ return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 accum.push(next_elem)
 }
 };
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
+while accum.len() < (79u32 as usize) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -29274,14 +29207,13 @@ return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 accum.push(next_elem)
 }
 };
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
 /// d#304
 fn Decoder304(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -29533,7 +29465,7 @@ PResult::Ok(accum)
 /// d#309
 fn Decoder309(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while (_input.remaining() > 0) && (accum.len() < (79u32 as usize)) {
+while accum.len() < (79u32 as usize) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -30504,7 +30436,6 @@ return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 accum.push(next_elem)
 }
 };
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -31586,7 +31517,7 @@ u32be(x)
 let component_name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -32708,7 +32639,7 @@ u32be(x)
 let name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33467,7 +33398,7 @@ u16be(x)
 let item_name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33517,7 +33448,7 @@ chars.clone()
 let content_type = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33567,7 +33498,7 @@ chars.clone()
 let content_encoding = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33641,7 +33572,7 @@ let item_type = (Decoder314(_input))?;
 let item_name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33716,7 +33647,7 @@ fn Decoder_mpeg4_infe_atom_data_extra_fields_mime(_input: &mut Parser<'_>) -> Re
 let content_type = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33771,7 +33702,7 @@ fn Decoder_mpeg4_infe_atom_data_extra_fields_uri(_input: &mut Parser<'_>) -> Res
 let item_uri_type = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33847,7 +33778,7 @@ fn Decoder_jpeg_frame(_input: &mut Parser<'_>) -> Result<jpeg_frame, ParseError>
 let initial_segment = (Decoder_jpeg_frame_initial_segment(_input))?;
 let segments = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -34142,7 +34073,7 @@ return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 };
 let scans = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -34691,7 +34622,7 @@ return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 fn Decoder_jpeg_scan(_input: &mut Parser<'_>) -> Result<jpeg_scan, ParseError> {
 let segments = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -34850,7 +34781,7 @@ PResult::Ok(jpeg_dnl { marker, length, data })
 fn Decoder377(_input: &mut Parser<'_>) -> Result<jpeg_scan, ParseError> {
 let segments = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -35009,7 +34940,7 @@ PResult::Ok(jpeg_sos { marker, length, data })
 fn Decoder_jpeg_scan_data(_input: &mut Parser<'_>) -> Result<jpeg_scan_data, ParseError> {
 let scan_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -35662,7 +35593,7 @@ PResult::Ok(jpeg_dnl_data { num_lines })
 fn Decoder395(_input: &mut Parser<'_>) -> Result<jpeg_scan_data, ParseError> {
 let scan_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -36433,7 +36364,9 @@ let sz = (try_sub!(length, 2u16, 3198904588321530108u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_jpeg_dqt_data(_input))?;
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -36448,18 +36381,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = (Decoder_jpeg_dqt_data(_input))?;
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 PResult::Ok(accum)
 })())?;
@@ -37534,7 +37457,7 @@ fn Decoder_jpeg_app1_data(_input: &mut Parser<'_>) -> Result<jpeg_app1_data, Par
 let identifier = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37678,7 +37601,7 @@ fn Decoder_jpeg_app0_data(_input: &mut Parser<'_>) -> Result<jpeg_app0_data, Par
 let identifier = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37971,31 +37894,7 @@ return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 /// d#447
 fn Decoder447(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
-let matching_ix = {
-_input.open_peek_context();
-{
-let ret = if _input.remaining() == 0 {
-0
-} else {
-let b = _input.read_byte()?;
-if b == 31 {
-1
-} else {
-0
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
-break
-}
-} else {
+loop {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
 let fextra = if header.file_flags.fextra {
@@ -38027,11 +37926,27 @@ ret
 let footer = (Decoder_gzip_footer(_input))?;
 gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 };
-accum.push(next_elem)
+accum.push(next_elem);
+let matching_ix = {
+_input.open_peek_context();
+{
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
+1
+} else {
+0
 }
 };
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
+_input.close_peek_context()?;
+ret
+}
+};
+if matching_ix == 0 {
+break
+}
 };
 PResult::Ok(accum)
 }
@@ -38040,7 +37955,9 @@ PResult::Ok(accum)
 fn Decoder448(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
+let next_elem = (Decoder_tar_header_with_data(_input))?;
+accum.push(next_elem);
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38062,18 +37979,8 @@ ret
 }
 };
 if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
 break
 }
-} else {
-let next_elem = (Decoder_tar_header_with_data(_input))?;
-accum.push(next_elem)
-}
-};
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
 };
 accum
 };
@@ -38386,7 +38293,7 @@ accum
 let authentication_code = vec![_input.read_byte()?, _input.read_byte()?, _input.read_byte()?];
 let application_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38440,7 +38347,7 @@ return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 };
 let comment_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38645,7 +38552,7 @@ let text_foreground_color_index = _input.read_byte()?;
 let text_background_color_index = _input.read_byte()?;
 let plain_text_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38722,7 +38629,7 @@ fn Decoder_gif_table_based_image_data(_input: &mut Parser<'_>) -> Result<gif_tab
 let lzw_min_code_size = _input.read_byte()?;
 let image_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38806,7 +38713,7 @@ fn Decoder470(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
 let tuple_var = {
 let arg0 = {
 let mut accum = Vec::new();
-while (_input.remaining() > 0) && (accum.len() < (9u16 as usize)) {
+while accum.len() < (9u16 as usize) {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -38937,7 +38844,6 @@ return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 accum.push(next_elem)
 }
 };
-(repeat_between_finished(true, accum.len(), 0u16 as usize, 9u16 as usize))?;
 accum
 };
 let arg1 = {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 309f254..b07d500 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3068,10 +3068,16 @@ where
                     };
                     let escape_clause =
                         GenControl::If(Box::new(cond), b_continue, Some(GenControl::Break.into()));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    let body = GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into()));
+                    if continue_tree.accept.is_some() {
+                        GenControl::While(
+                            Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
+                            body,
+                        )
+                    } else {
+                        // NOTE - if what follows is mandatory, the match-tree must reject the end of the input
+                        GenControl::Loop(body)
+                    }
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R0COM_ACCUM).into()))
@@ -3084,34 +3090,20 @@ where
                     let tree_index_expr = invoke_matchtree(break_tree, ctxt);
                     let bind_ix = RustStmt::assign(model::MATCH_BRANCH_IX, tree_index_expr).into();
                     let cond = model::eq0(RustExpr::local(model::MATCH_BRANCH_IX));
-                    let b_continue = {
-                        let bind_elem = GenStmt::assign(model::R1BOM_ELEM, elt.to_ast(ctxt));
-                        let push_elem = model::vec_push(
-                            RustExpr::local(model::R1BOM_ACCUM),
-                            RustExpr::local(model::R1BOM_ELEM),
-                        );
-                        GenBlock::from_parts(vec![bind_elem], Some(push_elem.into()))
-                    };
-                    let b_stop = GenControl::If(
-                        Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
-                        GenBlock::explicit_return(model::err_too_few()),
-                        Some(GenControl::Break.into()),
-                    )
-                    .into();
-                    let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    let bind_elem = GenStmt::assign(model::R1BOM_ELEM, elt.to_ast(ctxt));
+                    let push_elem = GenStmt::Embed(RustStmt::Expr(model::vec_push(
+                        RustExpr::local(model::R1BOM_ACCUM),
+                        RustExpr::local(model::R1BOM_ELEM),
+                    )));
+                    let escape_clause =
+                        GenControl::If(Box::new(cond), GenControl::Break.into(), None);
+                    // NOTE - the first element is mandatory, so we only look for a reason to stop after it
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_elem, push_elem, bind_ix],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
-                // NOTE - the loop also ends when the input is exhausted, which may be before the first element
-                let check_nonempty = GenControl::If(
-                    Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
-                    GenBlock::explicit_return(model::err_too_few()),
-                    None,
-                );
-                stmts.push(check_nonempty.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
             }
             RepeatLogic::BetweenCounts(reps_left_tree, expr_min, expr_max, elt) => {
@@ -3147,23 +3139,11 @@ where
                         expr_max.clone().cast_as_usize(),
                     );
                     GenControl::While(
-                        Box::new(RustExpr::infix(
-                            model::gt0(model::rem_bytes(ctxt.parser())),
-                            InfixOperator::BoolAnd,
-                            more_allowed,
-                        )),
+                        Box::new(more_allowed),
                         GenBlock::from_parts(vec![bind_reps_left], Some(escape_clause.into())),
                     )
                 };
                 stmts.push(ctrl.into());
-                // NOTE - the loop also ends when the input is exhausted, which may be before the minimum is reached
-                let check_enough = model::repeat_between_finished(
-                    RustExpr::TRUE,
-                    RustExpr::local(model::BETWEEN_ACCUM).vec_len(),
-                    expr_min.clone().cast_as_usize(),
-                    expr_max.clone().cast_as_usize(),
-                );
-                stmts.push(GenStmt::Embed(RustStmt::Expr(check_enough)));
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
             }
             RepeatLogic::ForEach(seq, lbl, inner) => {
-- 
2.43.0


From 4d76dae51c011364f5baadc7e888a84675efb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 52/59] fix: FlatMapList elements are checked against their
 declared type

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 90d037a..8a40c0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -571,7 +571,9 @@ impl Expr {
                             ]),
                         );
                         match expr.infer_type(&child_scope)? {
-                            ValueType::Seq(t2) => Ok(ValueType::Seq(t2)),
+                            ValueType::Seq(t2) => {
+                                Ok(ValueType::Seq(Box::new(t2.unify(ret_type.as_ref())?)))
+                            }
                             other => Err(anyhow!("FlatMapList: expected Seq, found {other:?}")),
                         }
                     }
-- 
2.43.0


From a15e226a65f72f23395d0f80293e73c5f93d2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 53/59] fix: AccumUntil update does not see the variable of its
 predicate

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8a40c0f..6b540fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1175,7 +1175,7 @@ impl FormatModule {
                             ValueType::Base(BaseType::Bool) => {
                                 match lambda_acc_val.as_ref() {
                                     Expr::Lambda(head, expr) => {
-                                        let mut child_scope = TypeScope::child(&child_scope);
+                                        let mut child_scope = TypeScope::child(scope);
                                         let vt_acc_elem =
                                             ValueType::Tuple(vec![vt.as_ref().clone(), t.clone()]);
                                         child_scope.push(head.clone(), vt_acc_elem);
-- 
2.43.0


From 01b230ed0fbc305982e2fae6422600687e0eb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 54/59] fix: type-check slice lengths, relative addresses and
 negated formats

---
 src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b540fd..c282d5d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1209,10 +1209,29 @@ impl FormatModule {
                 )),
             },
             Format::Peek(a) => self.infer_format_type(scope, a),
-            Format::PeekNot(_a) => Ok(ValueType::Tuple(vec![])),
-            Format::Slice(_expr, a) => self.infer_format_type(scope, a),
+            Format::PeekNot(a) => {
+                // the value of the negated format is never seen, but it must have a type
+                self.infer_format_type(scope, a)?;
+                Ok(ValueType::Tuple(vec![]))
+            }
+            Format::Slice(len, a) => match len.infer_type(scope)? {
+                t if t.is_numeric() => self.infer_format_type(scope, a),
+                other => Err(anyhow!(
+                    "Slice first argument type should be numeric, found {other:?} instead"
+                )),
+            },
             Format::Bits(a) => self.infer_format_type(scope, a),
-            Format::WithRelativeOffset(_base_addr, _offset, a) => self.infer_format_type(scope, a),
+            Format::WithRelativeOffset(base_addr, offset, a) => {
+                let t_addr = base_addr
+                    .infer_type(scope)?
+                    .unify(&offset.infer_type(scope)?)?;
+                if !t_addr.is_numeric() {
+                    return Err(anyhow!(
+                        "WithRelativeOffset address type should be numeric, found {t_addr:?} instead"
+                    ));
+                }
+                self.infer_format_type(scope, a)
+            }
             Format::Map(a, expr) => {
                 let arg_type = self.infer_format_type(scope, a)?;
                 match expr.as_ref() {
-- 
2.43.0


From c83c55ccb5daa016f0937cfd8cf0368750585694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 55/59] fix: type-check the symbols of a Huffman code

---
 src/lib.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c282d5d..5490f6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1307,21 +1307,22 @@ impl FormatModule {
             }
             Format::Dynamic(name, dynformat, format) => {
                 match dynformat {
-                    DynFormat::Huffman(lengths_expr, _opt_values_expr) => {
-                        match lengths_expr.infer_type(scope)? {
-                            ValueType::Seq(t) => match &*t {
-                                &ValueType::U8 | &ValueType::U16 => {}
+                    DynFormat::Huffman(lengths_expr, opt_values_expr) => {
+                        for expr in std::iter::once(lengths_expr).chain(opt_values_expr) {
+                            match expr.infer_type(scope)? {
+                                ValueType::Seq(t) => match &*t {
+                                    &ValueType::U8 | &ValueType::U16 => {}
+                                    other => {
+                                        return Err(anyhow!(
+                                            "Huffman: expected U8 or U16, found {other:?}"
+                                        ));
+                                    }
+                                },
                                 other => {
-                                    return Err(anyhow!(
-                                        "Huffman: expected U8 or U16, found {other:?}"
-                                    ));
+                                    return Err(anyhow!("Huffman: expected Seq, found {other:?}"));
                                 }
-                            },
-                            other => {
-                                return Err(anyhow!("Huffman: expected Seq, found {other:?}"));
                             }
                         }
-                        // FIXME check opt_values_expr type
                     }
                 }
                 let mut child_scope = TypeScope::child(scope);
-- 
2.43.0


From a3b05f3f55067c5da3dc042a361bfe6266de0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 56/59] fix: character patterns have a type

---
 src/pattern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pattern.rs b/src/pattern.rs
index 4361339..9070ef9 100644
--- a/src/pattern.rs
+++ b/src/pattern.rs
@@ -65,6 +65,7 @@ impl Pattern {
             }
             (Pattern::Wildcard, _) => {}
             (Pattern::Bool(..), ValueType::Base(BaseType::Bool)) => {}
+            (Pattern::Char(..), ValueType::Base(BaseType::Char)) => {}
             (Pattern::U8(..), &ValueType::U8) => {}
             (Pattern::U16(..), &ValueType::U16) => {}
             (Pattern::U32(..), &ValueType::U32) => {}
@@ -115,6 +116,7 @@ impl Pattern {
             }
             (Pattern::Wildcard, _) => {}
             (Pattern::Bool(..), ValueTypeExt::Base(BaseType::Bool)) => {}
+            (Pattern::Char(..), ValueTypeExt::Base(BaseType::Char)) => {}
             (Pattern::U8(..), ValueTypeExt::Base(BaseType::U8)) => {}
             (Pattern::U16(..), ValueTypeExt::Base(BaseType::U16)) => {}
             (Pattern::U32(..), ValueTypeExt::Base(BaseType::U32)) => {}
-- 
2.43.0


From cb4f534221e30c7210c76931fa12a1278b91206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:00 +0000
Subject: [PATCH 57/59] fix: generated type names are unique

---
 src/codegen/path_names.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/codegen/path_names.rs b/src/codegen/path_names.rs
index 582cd25..cb439f5 100644
--- a/src/codegen/path_names.rs
+++ b/src/codegen/path_names.rs
@@ -1,6 +1,8 @@
+use std::collections::BTreeSet;
+
 use super::util::{FxHash, StableMap};
 use super::{
-    name::{NameCtxt, PathLabel},
+    name::{NameAtom, NameCtxt, PathLabel},
     rust_ast::RustTypeDecl,
 };
 use crate::Label;
@@ -26,8 +28,16 @@ impl NameGen {
 
     pub fn manifest_renaming_table(&mut self) -> StableMap<Label, Label, FxHash> {
         let mut ret = StableMap::<Label, Label, FxHash>::default();
+        let mut taken = BTreeSet::<Label>::new();
         for (k, v) in self.name_remap.iter() {
-            let rename = self.ctxt.find_name_for(v).unwrap();
+            let best = self.ctxt.find_name_for(v).unwrap();
+            // two types may agree on which path would be the best to name them after
+            let mut rename = best.clone();
+            let mut ix = 0;
+            while !taken.insert(rename.clone()) {
+                ix += 1;
+                rename = Label::Owned(format!("{best}__altX{ix}"));
+            }
 
             // NOTE - comment out the cfg attr to re-enable debugging
             #[cfg(false)]
@@ -86,8 +96,21 @@ impl NameGen {
                 let ix = self.ctr;
                 self.ctr += 1;
                 let (path, ret) = {
-                    let loc = self.ctxt.register_path();
-                    let name = self.ctxt.find_name_for(&loc).unwrap();
+                    let mut loc = self.ctxt.register_path();
+                    let mut name = self.ctxt.find_name_for(&loc).unwrap();
+                    // the current path may already be that of a different type (e.g. the ignored halves of two nested `MonadSeq`s)
+                    if self.name_remap.contains_key(&name) {
+                        self.ctxt.push_atom(NameAtom::Positional(0));
+                        loop {
+                            loc = self.ctxt.register_path();
+                            name = self.ctxt.find_name_for(&loc).unwrap();
+                            if !self.name_remap.contains_key(&name) {
+                                break;
+                            }
+                            self.ctxt.increment_index();
+                        }
+                        self.ctxt.escape();
+                    }
                     (loc, name)
                 };
 
-- 
2.43.0


From 2aad723a6561dce4a8e6599836b881550282b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:29 +0000
Subject: [PATCH 58/59] fix: variables of a format are kept apart from the
 local names of generated code

---
 generated/gencode.rs        | 108 ++++++++++++++++++------------------
 src/codegen/mod.rs          |  43 ++++++++++----
 src/codegen/model.rs        |  54 ++++++++++++++++++
 src/codegen/rust_ast/mod.rs |  10 ++--
 4 files changed, 145 insertions(+), 70 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 095d083..71e7b7f 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10829,7 +10829,7 @@ PResult::Ok(opentype_table_record { table_id, checksum, offset, length })
 
 /// d#30
 fn Decoder_opentype_table_directory_table_links<'input>(_input: &mut Parser<'input>, tables: &[opentype_table_record], font_view: View<'input>) -> Result<opentype_table_directory_table_links<'input>, ParseError> {
-let cmap = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668112752u32, tables)).copied() {
+let cmap = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1668112752u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10844,7 +10844,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 };
-let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
+let head = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1751474532u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10859,7 +10859,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(3167775832820164678u64));
 }
 };
-let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
+let hhea = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1751672161u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10874,7 +10874,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(7215050775822222282u64));
 }
 };
-let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
+let maxp = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1835104368u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10889,7 +10889,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
-let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
+let hmtx = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1752003704u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10904,7 +10904,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
-let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
+let name = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1851878757u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10919,7 +10919,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
-let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
+let os2 = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1330851634u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10935,7 +10935,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
-let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
+let post = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1886352244u32, tables)).copied() {
 Some(ref matching_table) => {
 let mut view_parser = Parser::from(font_view.offset(matching_table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10950,7 +10950,7 @@ _ => {
 return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
-let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
+let cvt = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1668707360u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -10995,7 +10995,7 @@ None => {
 None
 }
 };
-let fpgm = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1718642541u32, tables)).copied() {
+let fpgm = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1718642541u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11034,7 +11034,7 @@ None => {
 None
 }
 };
-let loca = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1819239265u32, tables)).copied() {
+let loca = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1819239265u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11049,7 +11049,7 @@ None => {
 None
 }
 };
-let glyf = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1735162214u32, tables)).copied() {
+let glyf = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1735162214u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11072,7 +11072,7 @@ None => {
 None
 }
 };
-let prep = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886545264u32, tables)).copied() {
+let prep = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1886545264u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11111,7 +11111,7 @@ None => {
 None
 }
 };
-let gasp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1734439792u32, tables)).copied() {
+let gasp = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1734439792u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11126,7 +11126,7 @@ None => {
 None
 }
 };
-let base = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1111577413u32, tables)).copied() {
+let base = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1111577413u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11141,7 +11141,7 @@ None => {
 None
 }
 };
-let gdef = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1195656518u32, tables)).copied() {
+let gdef = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1195656518u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11156,7 +11156,7 @@ None => {
 None
 }
 };
-let gpos = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1196445523u32, tables)).copied() {
+let gpos = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1196445523u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11171,7 +11171,7 @@ None => {
 None
 }
 };
-let gsub = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1196643650u32, tables)).copied() {
+let gsub = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1196643650u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11186,7 +11186,7 @@ None => {
 None
 }
 };
-let avar = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1635148146u32, tables)).copied() {
+let avar = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1635148146u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11201,7 +11201,7 @@ None => {
 None
 }
 };
-let fvar = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1719034226u32, tables)).copied() {
+let fvar = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1719034226u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11216,7 +11216,7 @@ None => {
 None
 }
 };
-let gvar = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1735811442u32, tables)).copied() {
+let gvar = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1735811442u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11231,7 +11231,7 @@ None => {
 None
 }
 };
-let hvar = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1213612370u32, tables)).copied() {
+let hvar = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1213612370u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11246,7 +11246,7 @@ None => {
 None
 }
 };
-let mvar = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1297498450u32, tables)).copied() {
+let mvar = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1297498450u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11261,7 +11261,7 @@ None => {
 None
 }
 };
-let svg = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1398163232u32, tables)).copied() {
+let svg = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1398163232u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11276,7 +11276,7 @@ None => {
 None
 }
 };
-let kern = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1801810542u32, tables)).copied() {
+let kern = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1801810542u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11291,7 +11291,7 @@ None => {
 None
 }
 };
-let stat = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1398030676u32, tables)).copied() {
+let stat = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1398030676u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11306,7 +11306,7 @@ None => {
 None
 }
 };
-let vhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1986553185u32, tables)).copied() {
+let vhea = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1986553185u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11321,7 +11321,7 @@ None => {
 None
 }
 };
-let vmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1986884728u32, tables)).copied() {
+let vmtx = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1986884728u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11346,7 +11346,7 @@ None
 };
 let dsig = {
 _input.start_alt();
-let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
+let res = (|| match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11374,7 +11374,7 @@ None
 }
 }
 };
-let hdmx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751412088u32, tables)).copied() {
+let hdmx = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1751412088u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -11389,7 +11389,7 @@ None => {
 None
 }
 };
-let vdmx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1447316824u32, tables)).copied() {
+let vdmx = match (find_by_key_unsorted(|elem_: &opentype_table_record| elem_.table_id, 1447316824u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
 let view_input = &mut view_parser;
@@ -12340,9 +12340,9 @@ let glyphs = match offsets {
 opentype_loca_table_offsets::Offsets16(ref half16s) => {
 let len = pred((half16s.len()) as u32);
 let mut accum = Vec::new();
-for ix in 0u32..len {
+for ix_ in 0u32..len {
 let next_elem = {
-let (this_offs, next_offs) = ((half16s[ix as usize] as u32) * 2u32, (half16s[(succ(ix)) as usize] as u32) * 2u32);
+let (this_offs, next_offs) = ((half16s[ix_ as usize] as u32) * 2u32, (half16s[(succ(ix_)) as usize] as u32) * 2u32);
 match next_offs > this_offs {
 true => {
 let inner = {
@@ -12366,9 +12366,9 @@ accum
 opentype_loca_table_offsets::Offsets32(ref off32s) => {
 let len = pred((off32s.len()) as u32);
 let mut accum = Vec::new();
-for ix in 0u32..len {
+for ix_ in 0u32..len {
 let next_elem = {
-let (this_offs, next_offs) = (off32s[ix as usize], off32s[(succ(ix)) as usize]);
+let (this_offs, next_offs) = (off32s[ix_ as usize], off32s[(succ(ix_)) as usize]);
 match next_offs > this_offs {
 true => {
 let inner = {
@@ -16692,9 +16692,9 @@ opentype_gvar_serialized_data_per_tuple_variation_data_x_and_y_coordinate_deltas
 opentype_gvar_serialized_data_per_tuple_variation_data_x_and_y_coordinate_deltas { control, deltas }
 };
 acc = {
-let acc = acc;
+let acc_ = acc;
 let run = elem.clone();
-acc + (succ(run.control.delta_run_count as u16))
+acc_ + (succ(run.control.delta_run_count as u16))
 };
 seq.push(elem)
 };
@@ -16799,9 +16799,9 @@ break
 };
 let elem = (Decoder_opentype_var_packed_point_numbers_runs(_input))?;
 acc = {
-let acc = acc;
+let acc_ = acc;
 let run = elem.clone();
-acc + (succ(run.control.point_run_count as u16))
+acc_ + (succ(run.control.point_run_count as u16))
 };
 seq.push(elem)
 };
@@ -20461,9 +20461,9 @@ let field_set = opentype_glyf_simple_flags { on_curve_point: flags.on_curve_poin
 opentype_glyf_simple_flags_lhs { repeats, field_set }
 };
 acc = {
-let acc = acc;
+let acc_ = acc;
 let flags = elem;
-acc + (succ(flags.repeats as u16))
+acc_ + (succ(flags.repeats as u16))
 };
 seq.push(elem)
 };
@@ -20563,10 +20563,10 @@ let mut acc = false;
 loop {
 {
 let tmp_cond = {
-let seq = &seq;
-match match ((seq.len()) as u32) != 0u32 {
+let seq_ = &seq;
+match match ((seq_.len()) as u32) != 0u32 {
 true => {
-Some(seq[(pred((seq.len()) as u32)) as usize])
+Some(seq_[(pred((seq_.len()) as u32)) as usize])
 },
 
 false => {
@@ -20779,9 +20779,9 @@ None
 opentype_glyf_composite_acc_glyphs { flags, glyph_index, argument1, argument2, scale }
 };
 acc = {
-let acc = acc;
+let acc_ = acc;
 let glyph = elem;
-acc || glyph.flags.we_have_instructions
+acc_ || glyph.flags.we_have_instructions
 };
 seq.push(elem)
 };
@@ -20842,10 +20842,10 @@ accum
 let string_data = {
 let mut accum = Vec::new();
 for _ in 0..match (succ((try_fold_left_curried(glyph_name_index.iter().cloned(), 0u16, |tuple_var: (u16, u16)| PResult::Ok({
-let (acc, x) = tuple_var;
-match acc >= x {
+let (acc_, x) = tuple_var;
+match acc_ >= x {
 true => {
-acc
+acc_
 },
 
 false => {
@@ -20859,10 +20859,10 @@ true => {
 
 false => {
 try_sub!(succ((try_fold_left_curried(glyph_name_index.iter().cloned(), 0u16, |tuple_var: (u16, u16)| PResult::Ok({
-let (acc, x) = tuple_var;
-match acc >= x {
+let (acc_, x) = tuple_var;
+match acc_ >= x {
 true => {
-acc
+acc_
 },
 
 false => {
@@ -21290,8 +21290,8 @@ accum
 let sub_headers = {
 let mut accum = Vec::new();
 for _ in 0..succ(match (try_fold_left_curried(sub_header_keys.iter().cloned(), None, |tuple_var: (Option<u16>, u16)| PResult::Ok({
-let (acc, y) = tuple_var;
-match acc {
+let (acc_, y) = tuple_var;
+match acc_ {
 Some(x) => {
 Some(match x >= y / 8u16 {
 true => {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index b07d500..99a77e0 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -4250,7 +4250,7 @@ impl<'a> Elaborator<'a> {
         match pat {
             Pattern::Binding(name) => {
                 let gt = self.get_gt_from_index(index);
-                GTPattern::Binding(gt, name.clone())
+                GTPattern::Binding(gt, model::user_local(name))
             }
             Pattern::Wildcard => GTPattern::Wildcard(self.get_gt_from_index(index)),
             Pattern::Bool(b) => GTPattern::Bool(*b),
@@ -4375,7 +4375,7 @@ impl<'a> Elaborator<'a> {
                 let mut t_args = Vec::with_capacity(args.len());
                 for ((lbl, ty), arg) in Iterator::zip(fm_args.iter(), args.iter()) {
                     let t_arg = self.elaborate_expr(arg);
-                    t_args.push((lbl.clone(), t_arg));
+                    t_args.push((model::user_local(lbl), t_arg));
                     self.force_unify_against_valuetype(ty);
                 }
                 self.codegen.name_gen.ctxt.escape();
@@ -4385,7 +4385,7 @@ impl<'a> Elaborator<'a> {
                 let mut t_views = Vec::with_capacity(views.len());
                 for (lbl, view) in Iterator::zip(fm_views.iter(), views.iter()) {
                     let t_view = self.elaborate_view_expr(view);
-                    t_views.push((lbl.clone(), t_view));
+                    t_views.push((model::user_local(lbl), t_view));
                 }
 
                 let t_inner = if let Some(val) = self.t_formats.get(level) {
@@ -4407,7 +4407,12 @@ impl<'a> Elaborator<'a> {
                 self.increment_index();
                 let t_inner = self.elaborate_format(inner, dyn_scope);
                 let gt = self.get_gt_from_index(index);
-                TypedFormat::ForEach(gt, Box::new(t_expr), lbl.clone(), Box::new(t_inner))
+                TypedFormat::ForEach(
+                    gt,
+                    Box::new(t_expr),
+                    model::user_local(lbl),
+                    Box::new(t_inner),
+                )
             }
             Format::DecodeBytes(expr, inner) => {
                 let index = self.get_and_increment_index();
@@ -4683,13 +4688,18 @@ impl<'a> Elaborator<'a> {
                 let t_expr = self.elaborate_expr(expr);
                 let t_inner = self.elaborate_format(inner, dyn_scope);
                 let gt = self.get_gt_from_index(index);
-                TypedFormat::Let(gt, lbl.clone(), Box::new(t_expr), Box::new(t_inner))
+                TypedFormat::Let(
+                    gt,
+                    model::user_local(lbl),
+                    Box::new(t_expr),
+                    Box::new(t_inner),
+                )
             }
             Format::LetView(ident, inner) => {
                 let index = self.get_and_increment_index();
                 let t_inner = self.elaborate_format(inner, dyn_scope);
                 let gt = self.get_gt_from_index(index);
-                TypedFormat::LetView(gt, ident.clone(), Box::new(t_inner))
+                TypedFormat::LetView(gt, model::user_local(ident), Box::new(t_inner))
             }
             Format::Match(x, branches) => {
                 let index = self.get_and_increment_index();
@@ -4720,7 +4730,7 @@ impl<'a> Elaborator<'a> {
                 ));
                 let t_inner = self.elaborate_format(inner, &new_dyn_scope);
                 let gt = self.get_gt_from_index(index);
-                TypedFormat::Dynamic(gt, lbl.clone(), t_dynf, Box::new(t_inner))
+                TypedFormat::Dynamic(gt, model::user_local(lbl), t_dynf, Box::new(t_inner))
             }
             Format::Apply(lbl) => {
                 let index = self.get_and_increment_index();
@@ -4728,7 +4738,7 @@ impl<'a> Elaborator<'a> {
                     .get_typed_dynf_by_name(lbl)
                     .unwrap_or_else(|| panic!("missing dynformat {lbl}"));
                 let gt = self.get_gt_from_index(index);
-                TypedFormat::Apply(gt, lbl.clone(), t_dynf)
+                TypedFormat::Apply(gt, model::user_local(lbl), t_dynf)
             }
             Format::LetFormat(f0, name, f) => {
                 // REVIEW - double-check whether adhoc types introduced in LetFormat are properly path-named
@@ -4741,7 +4751,12 @@ impl<'a> Elaborator<'a> {
                 self.codegen.name_gen.ctxt.escape();
                 let t_f = self.elaborate_format(f, dyn_scope);
                 let gt = self.get_gt_from_index(index);
-                TypedFormat::LetFormat(gt, Box::new(t_f0), name.clone(), Box::new(t_f))
+                TypedFormat::LetFormat(
+                    gt,
+                    Box::new(t_f0),
+                    model::user_local(name),
+                    Box::new(t_f),
+                )
             }
             Format::MonadSeq(f0, f) => {
                 // REVIEW - double-check whether adhoc types introduced in MonadSeq are properly path-named
@@ -4907,7 +4922,7 @@ impl<'a> Elaborator<'a> {
                 let gt = self.get_gt_from_index(index);
                 self.codegen.name_gen.ctxt.escape();
 
-                TypedExpr::Var(gt, lbl.clone())
+                TypedExpr::Var(gt, model::user_local(lbl))
             }
             Expr::Bool(b) => TypedExpr::Bool(*b),
             Expr::U8(n) => TypedExpr::U8(*n),
@@ -5288,7 +5303,11 @@ impl<'a> Elaborator<'a> {
                 self.codegen.name_gen.ctxt.escape();
 
                 let gt_body = self.get_gt_from_index(body_index);
-                TypedExpr::Lambda((gt_head, gt_body), head.clone(), Box::new(t_body))
+                TypedExpr::Lambda(
+                    (gt_head, gt_body),
+                    model::user_local(head),
+                    Box::new(t_body),
+                )
             }
             _ => unreachable!("elaborate_expr_lambda: unexpected non-lambda {expr:?}"),
         }
@@ -5296,7 +5315,7 @@ impl<'a> Elaborator<'a> {
 
     fn elaborate_view_expr(&mut self, view: &ViewExpr) -> TypedViewExpr<GenType> {
         match view {
-            ViewExpr::Var(lbl) => TypedViewExpr::Var(lbl.clone()),
+            ViewExpr::Var(lbl) => TypedViewExpr::Var(model::user_local(lbl)),
             ViewExpr::Offset(base, offs) => {
                 let t_base = self.elaborate_view_expr(base);
                 let t_offs = self.elaborate_expr(offs);
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 5bab24e..e374c1f 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -156,6 +156,60 @@ pub const PERMIT_ERR: &str = "err";
 
 // !SECTION
 
+/// Local bindings and functions that generated code refers to in scopes where variables of the format are visible
+const RESERVED: &[&str] = &[
+    "_input",
+    MATCH_BRANCH_IX,
+    COMPLEX_COND_TMP,
+    SLICE_LEN,
+    OFFS_PEEK_TARGET,
+    OFFS_PEEK_DBG_ADV,
+    PEEK_NOT_RES,
+    R0COM_ACCUM,
+    R0COM_ELEM,
+    BETWEEN_REPS_LEFT,
+    UNFOLD_SEQ,
+    UNFOLD_ACC,
+    UNFOLD_ELEM,
+    DESCEND_IX,
+    DECODE_BUF_BYTES,
+    DECODE_BUF_PARSER_OBJ,
+    DECODE_BUF_PARSER_REF,
+    PARSE_VIEW_PARSER_OBJ,
+    PARSE_VIEW_PARSER_REF,
+    WHERE_INNER,
+    WHERE_CHECK,
+    PERMIT_ERR,
+    ACCUM_SEQ_PREFIX,
+    "pred",
+    "succ",
+    "dup32",
+    "u16be",
+    "u16le",
+    "u32be",
+    "u32le",
+    "u64be",
+    "u64le",
+    "seq_append",
+    "slice_all",
+    "slice_ext",
+];
+
+/// Returns the identifier to use for a variable of the format, which is its own name unless generated code
+/// would then confuse it with one of its own local bindings.
+pub(crate) fn user_local(name: &Label) -> Label {
+    let base = name.trim_end_matches('_');
+    let is_numbered = |prefix: &str| {
+        (base.strip_prefix(prefix))
+            .is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()))
+    };
+    if RESERVED.contains(&base) || is_numbered(ACCUM_SEQ_PREFIX) || is_numbered(ACCUM_TUP_PREFIX) {
+        Label::from(format!("{name}_"))
+    } else {
+        name.clone()
+    }
+}
+
 /// Template function for constructing a ViewObject `RustType` with a given lifetime parameter
 pub fn view_obj_type(lt: RustLt) -> RustType {
     RustType::ViewObject(lt)
diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index a4adbb4..6f739cf 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -1027,10 +1027,12 @@ pub(crate) fn sanitize_label(label: &Label) -> Label {
 /// Adds a `r#` prefix to any reserved Rust keywords that would be invalid as identifiers.
 fn remap(input: Label) -> Label {
     match input.as_ref() {
-        "as" | "async" | "await" | "break" | "const" | "continue" | "crate" | "dyn" | "else"
+        // NOTE - these keywords are not allowed as raw identifiers
+        "crate" | "self" | "Self" | "super" => Label::from(format!("{input}_")),
+        "as" | "async" | "await" | "break" | "const" | "continue" | "dyn" | "else"
         | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop"
-        | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return" | "self" | "Self"
-        | "static" | "struct" | "super" | "trait" | "true" | "type" | "unsafe" | "use"
+        | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return" | "static" | "struct"
+        | "trait" | "true" | "type" | "unsafe" | "use"
         | "where" | "while" | "abstract" | "become" | "box" | "do" | "final" | "macro"
         | "override" | "priv" | "try" | "typeof" | "unsized" | "virtual" | "yield" => {
             Label::from(format!("r#{input}"))
@@ -3850,7 +3852,7 @@ impl ToFragment for RustControl {
                 )
                 .intervene(Fragment::Char(' '), RustStmt::block(body.iter())),
             RustControl::ForIter(elt_name, iterable, body) => Fragment::string("for")
-                .intervene(Fragment::Char(' '), Fragment::String(elt_name.clone()))
+                .intervene(Fragment::Char(' '), elt_name.to_fragment())
                 .intervene(
                     Fragment::string(" in "),
                     iterable.to_fragment_precedence(Precedence::TOP),
-- 
2.43.0


From c929a7ad213172b770bf2dd653fa94f3c148badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:26 +0000
Subject: [PATCH 59/59] fix: reserved bits of packed fields are checked, and a
 field may take the whole width

---
 generated/gencode.rs | 1288 ++++++++++++++++++++++--------------------
 src/helper.rs        |    9 +-
 2 files changed, 672 insertions(+), 625 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 71e7b7f..e752c18 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -13570,9 +13570,21 @@ u16be(x)
 };
 let flags = {
 let _packed_bits = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
+let is_valid = {
+let packed = inner;
+packed & 254u16 == 0u16
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+inner
+}
+};
 let cannot_be_resigned = _packed_bits & 1u16 > 0u16;
 opentype_dsig_table_flags { cannot_be_resigned }
 };
@@ -13601,7 +13613,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -13621,7 +13633,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14454034443522724586u64));
+return Err(ParseError::FalsifiedWhere(5322124757500927073u64));
 }
 };
 let records = {
@@ -13657,7 +13669,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
 inner
 }
 };
@@ -13677,7 +13689,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17869550927478639832u64));
+return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
 }
 };
 let ratio_range = {
@@ -13801,7 +13813,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13817,7 +13829,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13516986665125759073u64));
 inner
 }
 };
@@ -13892,7 +13904,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
+return Err(ParseError::FalsifiedWhere(14751251992141172493u64));
 }
 };
 let data = match format {
@@ -14056,7 +14068,7 @@ opentype_stat_axis_value_table_data::Format4(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(5733880678136728614u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14082,7 +14094,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8997881400116719018u64));
 inner
 }
 };
@@ -14114,7 +14126,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8997881400116719018u64));
+return Err(ParseError::FailToken(13614619987783239962u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14268,7 +14280,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13614619987783239962u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14305,7 +14317,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6949960292533894002u64));
 inner
 }
 };
@@ -14510,7 +14522,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(1347174710810305478u64));
 }
 };
 let ix1 = {
@@ -14518,7 +14530,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(8958899994948144829u64));
 }
 };
 vec![ix0, ix1]
@@ -14592,7 +14604,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8958899994948144829u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 _input.close_peek_context()?;
@@ -14605,7 +14617,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 accum.push(next_elem)
@@ -14620,7 +14632,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8390724546948265409u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14645,7 +14657,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6347242493551283856u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 _input.close_peek_context()?;
@@ -14658,7 +14670,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 accum.push(next_elem)
@@ -14673,7 +14685,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 chars.clone()
@@ -14780,7 +14792,7 @@ deflate_block_data::dynamic_huffman(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17324980155911269375u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -14801,12 +14813,12 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 let inner = nlen;
 let is_valid = {
 let n = inner;
-n == (try_sub!(65535u16, len, 2444204717155307095u64))
+n == (try_sub!(65535u16, len, 1278184758971178969u64))
 };
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1278184758971178969u64));
+return Err(ParseError::FalsifiedWhere(4480225125687487743u64));
 }
 };
 let bytes = {
@@ -15416,7 +15428,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 },
 
 286u16..=287u16 => {
-return Err(ParseError::FailToken(4480225125687487743u64));
+return Err(ParseError::FailToken(12879845237981630531u64));
 },
 
 _ => {
@@ -15832,7 +15844,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 },
 
 286u16..=287u16 => {
-return Err(ParseError::FailToken(12879845237981630531u64));
+return Err(ParseError::FailToken(3426398976290336157u64));
 },
 
 _ => {
@@ -15928,7 +15940,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11250208753083412758u64));
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 }))
 },
@@ -16080,11 +16092,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(17349123374714965876u64));
+return Err(ParseError::FailToken(2153064741293804702u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(1588651938759015246u64));
 }
 })
 }
@@ -16162,7 +16174,7 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1588651938759015246u64));
+return Err(ParseError::ExcludedBranch(3249387167439447765u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16190,7 +16202,19 @@ PResult::Ok(gzip_fextra_subfield { si1, si2, len, data })
 
 /// d#95
 fn Decoder_gzip_header_file_flags(_input: &mut Parser<'_>) -> Result<gzip_header_file_flags, ParseError> {
-let _packed_bits = _input.read_byte()?;
+let _packed_bits = {
+let inner = _input.read_byte()?;
+let is_valid = {
+let packed = inner;
+packed & 224u8 == 0u8
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+inner
+}
+};
 let fcomment = _packed_bits >> 4u8 & 1u8 > 0u8;
 let fname = _packed_bits >> 3u8 & 1u8 > 0u8;
 let fextra = _packed_bits >> 2u8 & 1u8 > 0u8;
@@ -16215,7 +16239,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3249387167439447765u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
 inner
 }
 };
@@ -16281,7 +16305,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
 }
 };
 let variation_regions = {
@@ -16454,7 +16478,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8700288293163706751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13846498452079501214u64));
 inner
 }
 };
@@ -16476,7 +16500,7 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16771529512960957239u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 let map_data = {
@@ -16488,7 +16512,19 @@ PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_b
 
 /// d#101
 fn Decoder_opentype_var_dsim_entry_format(_input: &mut Parser<'_>) -> Result<opentype_var_dsim_entry_format, ParseError> {
-let _packed_bits = _input.read_byte()?;
+let _packed_bits = {
+let inner = _input.read_byte()?;
+let is_valid = {
+let packed = inner;
+packed & 192u8 == 0u8
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9819345728844658158u64));
+inner
+}
+};
 let map_entry_size = _packed_bits >> 4u8 & 3u8;
 let inner_index_bit_count = _packed_bits & 15u8;
 PResult::Ok(opentype_var_dsim_entry_format { map_entry_size, inner_index_bit_count })
@@ -16538,7 +16574,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13846498452079501214u64));
+return Err(ParseError::FalsifiedWhere(18279137173405083757u64));
 }
 };
 let tuple_variation_headers = {
@@ -16731,7 +16767,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14954891776835932150u64));
+return Err(ParseError::ExcludedBranch(9342187932533045817u64));
 }
 };
 _input.close_peek_context()?;
@@ -16745,7 +16781,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9798710097031164942u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 };
 (0u16, [].to_vec())
@@ -16757,7 +16793,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9819345728844658158u64));
+return Err(ParseError::ExcludedBranch(11046436797737227751u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16769,7 +16805,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(14984809111992638634u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16777,7 +16813,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11046436797737227751u64));
+return Err(ParseError::ExcludedBranch(13404710972790825894u64));
 }
 })
 }
@@ -16907,7 +16943,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17056,7 +17092,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
 inner
 }
 };
@@ -17072,7 +17108,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10875553067752207222u64));
 inner
 }
 };
@@ -17128,7 +17164,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11323981950571132721u64));
 inner
 }
 };
@@ -17144,7 +17180,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6279463968646665849u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1179945139148562335u64));
 inner
 }
 };
@@ -17286,7 +17322,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
 }
 };
 let table_scope = table_view;
@@ -17302,7 +17338,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
+return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
 }
 };
 let extension_offset = {
@@ -17355,11 +17391,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(15898809900392744567u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 }
 })
 }
@@ -17383,7 +17419,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17430,7 +17466,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15898809900392744567u64));
+return Err(ParseError::ExcludedBranch(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17452,7 +17488,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let coverage = {
@@ -17501,7 +17537,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let coverage = {
@@ -17559,7 +17595,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17590,7 +17626,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17611,7 +17647,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
+return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
 }
 };
 let table_scope = table_view;
@@ -17742,7 +17778,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(12187643960709778443u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17990,7 +18026,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16594239496794104967u64));
+return Err(ParseError::FailToken(8766708729375264031u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18232,7 +18268,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let seq_lookup_count = {
@@ -18470,7 +18506,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12187643960709778443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(163858356033350300u64));
 inner
 }
 };
@@ -18619,7 +18655,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
+return Err(ParseError::FalsifiedWhere(888161872995526095u64));
 }
 };
 let table_scope = table_view;
@@ -18635,7 +18671,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 let extension_offset = {
@@ -18693,11 +18729,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(9976720501248819272u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(3595277668730903043u64));
 }
 })
 }
@@ -18721,7 +18757,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4770836931378141069u64));
+return Err(ParseError::FailToken(5446531490235636452u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18746,7 +18782,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9976720501248819272u64));
+return Err(ParseError::FailToken(12530712830475607577u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18767,7 +18803,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
 }
 };
 let table_scope = table_view;
@@ -18809,7 +18845,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
+return Err(ParseError::FalsifiedWhere(4795509455376621436u64));
 }
 };
 let table_scope = table_view;
@@ -18868,7 +18904,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(3923207427992258326u64));
 }
 };
 let mark_coverage = {
@@ -18925,7 +18961,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1386817607731947864u64));
+return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
 }
 };
 let table_scope = table_view;
@@ -19083,7 +19119,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4795509455376621436u64));
+return Err(ParseError::FailToken(15995337135637623051u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19231,7 +19267,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3923207427992258326u64));
+return Err(ParseError::ExcludedBranch(4063460887563813446u64));
 }
 };
 let arg1 = {
@@ -19239,7 +19275,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5174369311102857850u64));
+return Err(ParseError::ExcludedBranch(10243418979491025991u64));
 }
 };
 (arg0, arg1)
@@ -19497,9 +19533,21 @@ PResult::Ok(opentype_layout_pair_pos_format2 { table_scope, coverage, value_form
 /// d#183
 fn Decoder_opentype_layout_value_format_flags(_input: &mut Parser<'_>) -> Result<opentype_layout_value_format_flags, ParseError> {
 let _packed_bits = {
+let inner = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
+let is_valid = {
+let packed = inner;
+packed & 65280u16 == 0u16
+};
+if is_valid {
+inner
+} else {
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+inner
+}
+};
 let y_advance_device = _packed_bits >> 7u16 & 1u16 > 0u16;
 let x_advance_device = _packed_bits >> 6u16 & 1u16 > 0u16;
 let y_placement_device = _packed_bits >> 5u16 & 1u16 > 0u16;
@@ -19934,7 +19982,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -20025,7 +20073,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4063460887563813446u64));
+return Err(ParseError::FailToken(14926982082392674388u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20274,7 +20322,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10243418979491025991u64));
+return Err(ParseError::FailToken(13281230340934385869u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20338,7 +20386,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6726475111737435495u64));
+return Err(ParseError::FailToken(2229770659268432585u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -20987,7 +21035,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
+return Err(ParseError::FalsifiedWhere(8862619478422395719u64));
 }
 };
 let max_twilight_points = {
@@ -21030,7 +21078,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
+return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21126,7 +21174,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13281230340934385869u64));
+return Err(ParseError::ExcludedBranch(13266006752343456203u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21149,7 +21197,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -21174,7 +21222,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21217,7 +21265,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21232,7 +21280,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13266006752343456203u64));
+return Err(ParseError::FalsifiedWhere(2508979988921372290u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21253,7 +21301,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21269,7 +21317,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16152968816646114000u64));
+return Err(ParseError::FalsifiedWhere(11815677057767015929u64));
 }
 };
 let language = {
@@ -21394,7 +21442,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21419,7 +21467,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21473,7 +21521,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21558,7 +21606,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21609,7 +21657,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21625,7 +21673,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21650,7 +21698,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -21666,7 +21714,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -21721,7 +21769,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -21737,7 +21785,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -21762,7 +21810,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -21778,7 +21826,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -21832,7 +21880,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -21848,7 +21896,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -21873,7 +21921,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -21889,7 +21937,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -21936,7 +21984,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -21952,7 +22000,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
 inner
 }
 };
@@ -21977,7 +22025,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16096650375442290768u64));
 inner
 }
 };
@@ -21993,7 +22041,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14339975513692068616u64));
 inner
 }
 };
@@ -22040,7 +22088,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16299205781335471965u64));
 inner
 }
 };
@@ -22065,7 +22113,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4649034608147552416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1479153625485860551u64));
 inner
 }
 };
@@ -22232,7 +22280,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16096650375442290768u64));
+return Err(ParseError::FalsifiedWhere(12668500753644823654u64));
 })
 }
 
@@ -22250,7 +22298,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 })
 }
@@ -22269,7 +22317,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 })
 }
@@ -22288,7 +22336,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 })
 }
@@ -22418,7 +22466,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 };
 let arg1 = {
@@ -22426,7 +22474,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 }
 };
 let arg2 = {
@@ -22434,7 +22482,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(1969670610881234889u64));
 }
 };
 let arg3 = {
@@ -22442,7 +22490,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(9038350950373664822u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22478,7 +22526,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7230273548678969972u64));
+return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 }
 };
 accum.push(next_elem)
@@ -22501,7 +22549,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
+return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
 })
 }
 
@@ -22520,7 +22568,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
+return Err(ParseError::FalsifiedWhere(14681668243282477517u64));
 })
 }
 
@@ -22550,7 +22598,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
+return Err(ParseError::FalsifiedWhere(6209434968043366837u64));
 })
 }
 
@@ -22564,7 +22612,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
+return Err(ParseError::FalsifiedWhere(16474038368490899078u64));
 })
 }
 
@@ -22578,7 +22626,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15510952803379905659u64));
+return Err(ParseError::FalsifiedWhere(12217686503432178884u64));
 })
 }
 
@@ -22639,7 +22687,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14681668243282477517u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 _input.close_peek_context()?;
@@ -22652,7 +22700,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 accum.push(next_elem)
@@ -22689,7 +22737,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16474038368490899078u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 accum.push(next_elem)
@@ -22724,7 +22772,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12217686503432178884u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 _input.close_peek_context()?;
@@ -22737,7 +22785,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
 accum.push(next_elem)
@@ -22774,7 +22822,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
 accum.push(next_elem)
@@ -22809,7 +22857,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 }
 };
 _input.close_peek_context()?;
@@ -22822,7 +22870,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
 accum.push(next_elem)
@@ -22859,7 +22907,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
 accum.push(next_elem)
@@ -22882,10 +22930,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14485842416732585139u64));
+return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5152282179373241998u64)
+try_sub!(bit as u8, 48u8, 12100308281236296642u64)
 };
 let _o9 = {
 let bit = {
@@ -22893,10 +22941,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13780055874544357936u64));
+return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7933266403838225878u64)
+try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
 let _o8 = {
 let bit = {
@@ -22904,10 +22952,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12100308281236296642u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5025197102194587315u64)
+try_sub!(bit as u8, 48u8, 16437491640759399344u64)
 };
 let _o7 = {
 let bit = {
@@ -22915,10 +22963,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3810055094392728880u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
-try_sub!(bit as u8, 48u8, 5599331855309773603u64)
+try_sub!(bit as u8, 48u8, 17176374570344757031u64)
 };
 let _o6 = {
 let bit = {
@@ -22926,10 +22974,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16437491640759399344u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
-try_sub!(bit as u8, 48u8, 6215067399528787845u64)
+try_sub!(bit as u8, 48u8, 3653195934333285574u64)
 };
 let _o5 = {
 let bit = {
@@ -22937,10 +22985,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7979287392867129207u64)
+try_sub!(bit as u8, 48u8, 8898504689444561451u64)
 };
 let _o4 = {
 let bit = {
@@ -22948,10 +22996,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
-try_sub!(bit as u8, 48u8, 10721249873135158334u64)
+try_sub!(bit as u8, 48u8, 10046433636842398056u64)
 };
 let _o3 = {
 let bit = {
@@ -22959,10 +23007,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3950014938140253048u64)
+try_sub!(bit as u8, 48u8, 5986772336072340665u64)
 };
 let _o2 = {
 let bit = {
@@ -22970,10 +23018,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
-try_sub!(bit as u8, 48u8, 757122060916971772u64)
+try_sub!(bit as u8, 48u8, 2908689796368760670u64)
 };
 let _o1 = {
 let bit = {
@@ -22981,10 +23029,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
-try_sub!(bit as u8, 48u8, 10645729856418057640u64)
+try_sub!(bit as u8, 48u8, 4598583460226006268u64)
 };
 let _o0 = {
 let bit = {
@@ -22992,10 +23040,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13311790038092155306u64)
+try_sub!(bit as u8, 48u8, 15680765559661576738u64)
 };
 (Decoder265(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23023,7 +23071,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 _input.close_peek_context()?;
@@ -23036,7 +23084,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23073,7 +23121,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 accum.push(next_elem)
@@ -23108,7 +23156,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 _input.close_peek_context()?;
@@ -23121,7 +23169,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 accum.push(next_elem)
@@ -23158,7 +23206,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 accum.push(next_elem)
@@ -23187,7 +23235,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 let arg1 = {
@@ -23195,7 +23243,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg2 = {
@@ -23203,7 +23251,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 let arg3 = {
@@ -23211,7 +23259,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 let arg4 = {
@@ -23219,7 +23267,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 let arg5 = {
@@ -23227,7 +23275,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23238,7 +23286,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 let arg1 = {
@@ -23246,7 +23294,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 (arg0, arg1)
@@ -23285,7 +23333,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 _input.close_peek_context()?;
@@ -23298,7 +23346,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23335,7 +23383,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23370,7 +23418,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 _input.close_peek_context()?;
@@ -23383,7 +23431,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23420,7 +23468,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 accum.push(next_elem)
@@ -23450,7 +23498,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 accum.push(next_elem)
@@ -23473,7 +23521,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 accum.push(next_elem);
@@ -23533,7 +23581,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 accum.push(next_elem)
@@ -23552,7 +23600,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 })
 }
 
@@ -23591,7 +23639,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem)
@@ -23627,7 +23675,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 accum.push(next_elem)
@@ -23658,7 +23706,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 _input.close_peek_context()?;
@@ -23671,7 +23719,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 accum.push(next_elem)
@@ -23689,7 +23737,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 accum.push(next_elem);
@@ -23734,7 +23782,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 _input.close_peek_context()?;
@@ -23748,7 +23796,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 let arg1 = {
@@ -23756,7 +23804,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23768,7 +23816,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 let arg1 = {
@@ -23776,14 +23824,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 })
 }
@@ -24008,7 +24056,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 })
 } else {
 None
@@ -24030,7 +24078,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
+return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
 let tag = (Decoder311(_input))?;
@@ -24062,7 +24110,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
+return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24198,7 +24246,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
+return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
 }
 };
 let tag = (Decoder281(_input))?;
@@ -24232,7 +24280,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
+return Err(ParseError::FalsifiedWhere(2466404913032252300u64));
 }
 };
 let flags = {
@@ -24275,7 +24323,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
+return Err(ParseError::FalsifiedWhere(4149374297771033461u64));
 }
 };
 let tag = (Decoder280(_input))?;
@@ -24293,7 +24341,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 let arg1 = {
@@ -24301,7 +24349,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg2 = {
@@ -24309,7 +24357,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let arg3 = {
@@ -24317,7 +24365,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24330,7 +24378,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg1 = {
@@ -24338,7 +24386,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg2 = {
@@ -24346,7 +24394,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 let arg3 = {
@@ -24354,7 +24402,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24400,7 +24448,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 let arg1 = {
@@ -24408,7 +24456,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg2 = {
@@ -24416,7 +24464,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let arg3 = {
@@ -24424,7 +24472,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24448,7 +24496,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 let arg1 = {
@@ -24456,7 +24504,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 let arg2 = {
@@ -24464,7 +24512,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 let arg3 = {
@@ -24472,7 +24520,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24501,7 +24549,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 };
 accum.push(next_elem)
@@ -24606,7 +24654,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 })
 }
@@ -24666,7 +24714,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 val.clone()
@@ -24676,7 +24724,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 let compressed_profile = (Decoder310(_input))?;
@@ -24735,7 +24783,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 })
 }
@@ -24751,7 +24799,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5041932778480497827u64));
+return Err(ParseError::FalsifiedWhere(16366772103869684910u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24766,7 +24814,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 val.clone()
@@ -24776,7 +24824,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 let compression_method = {
@@ -24784,7 +24832,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 let language_tag = {
@@ -24804,7 +24852,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 _input.close_peek_context()?;
@@ -24817,7 +24865,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 accum.push(next_elem)
@@ -24832,7 +24880,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 chars.clone()
@@ -24844,7 +24892,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 val.clone()
@@ -24935,7 +24983,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 };
 val.clone()
@@ -24977,7 +25025,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 val.clone()
@@ -24987,7 +25035,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 let compressed_text = {
@@ -25071,7 +25119,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 })
 }
@@ -25132,7 +25180,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 };
 val.clone()
@@ -25142,7 +25190,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 };
 let palette = match sample_depth {
@@ -25237,7 +25285,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25741,30 +25789,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
@@ -26212,6 +26236,30 @@ return Err(ParseError::ExcludedBranch(4317621489266312319u64));
 _ => {
 return Err(ParseError::ExcludedBranch(868434092978367357u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(496554245154466536u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -26225,7 +26273,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
 }
 };
 accum.push(next_elem)
@@ -26718,30 +26766,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(4411296728399804345u64));
 }
@@ -27189,6 +27213,30 @@ return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 _ => {
 return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -27202,7 +27250,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
 }
 };
 accum.push(next_elem)
@@ -27227,7 +27275,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6019636780841875619u64));
+return Err(ParseError::FalsifiedWhere(2518353173875372183u64));
 }
 };
 let flags = {
@@ -27740,30 +27788,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(9286045119570450224u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
@@ -28211,6 +28235,30 @@ return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -28224,7 +28272,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
 }
 };
 accum.push(next_elem)
@@ -28717,30 +28765,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(18441633166538026093u64));
 }
@@ -29188,6 +29212,30 @@ return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 _ => {
 return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -29201,7 +29249,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
 }
 };
 accum.push(next_elem)
@@ -29259,7 +29307,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
 }
 };
 _input.close_peek_context()?;
@@ -29292,7 +29340,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14114750189009003637u64));
+return Err(ParseError::FalsifiedWhere(3933597635930613605u64));
 }
 };
 let flags = {
@@ -29946,30 +29994,6 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
-_ => {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
-}
-}
-},
-
 _ => {
 return Err(ParseError::ExcludedBranch(5638313771627483501u64));
 }
@@ -30417,6 +30441,30 @@ return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+}
 };
 _input.close_peek_context()?;
 ret
@@ -30430,7 +30478,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(7931358881575056193u64));
 }
 };
 accum.push(next_elem)
@@ -30455,7 +30503,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15786118691017431738u64));
+return Err(ParseError::FalsifiedWhere(17863486658382945784u64));
 }
 };
 let flags = {
@@ -30491,7 +30539,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
 }
 };
 let arg1 = {
@@ -30499,7 +30547,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 };
 let arg2 = {
@@ -30507,7 +30555,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7931358881575056193u64));
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
 };
 let arg3 = {
@@ -30515,7 +30563,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+return Err(ParseError::ExcludedBranch(11570281271401624317u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30556,7 +30604,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8584109755265226714u64)
+try_sub!(x, 16u64, 1378805635639824117u64)
 },
 
 _ => {
@@ -30734,7 +30782,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11570281271401624317u64)
+try_sub!(x, 16u64, 8407356061009412694u64)
 },
 
 _ => {
@@ -30768,7 +30816,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1378805635639824117u64)
+try_sub!(x, 16u64, 13752480002470540422u64)
 },
 
 _ => {
@@ -30929,7 +30977,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8385173961957899741u64));
+return Err(ParseError::ExcludedBranch(17107648091243309207u64));
 }
 };
 let rate = {
@@ -31001,7 +31049,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6881565717664829242u64)
+try_sub!(x, 16u64, 14539762430836305896u64)
 },
 
 _ => {
@@ -31127,7 +31175,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17107648091243309207u64)
+try_sub!(x, 16u64, 2662265345698212949u64)
 },
 
 _ => {
@@ -31266,7 +31314,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5534609128357633386u64));
+return Err(ParseError::ExcludedBranch(3344648651879382526u64));
 }
 };
 let reserved2 = {
@@ -31335,7 +31383,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 3484767027554133518u64)
 },
 
 _ => {
@@ -31403,7 +31451,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 12041148194529633639u64)
 },
 
 _ => {
@@ -31531,7 +31579,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8599210436172030522u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 };
 _input.close_peek_context()?;
@@ -31544,7 +31592,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3484767027554133518u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 accum.push(next_elem)
@@ -31559,7 +31607,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15403934492100194569u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 chars.clone()
@@ -31619,7 +31667,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12041148194529633639u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 };
 let language = {
@@ -31650,7 +31698,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 17888323854924040413u64)
+try_sub!(x, 16u64, 13675295148592556047u64)
 },
 
 _ => {
@@ -31818,7 +31866,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11074951631636946051u64)
+try_sub!(x, 16u64, 9110520999974091875u64)
 },
 
 _ => {
@@ -31886,7 +31934,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13675295148592556047u64)
+try_sub!(x, 16u64, 15433822888775103886u64)
 },
 
 _ => {
@@ -32295,7 +32343,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9110520999974091875u64)
+try_sub!(x, 16u64, 17073037115051226650u64)
 },
 
 _ => {
@@ -32389,7 +32437,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15433822888775103886u64)
+try_sub!(x, 16u64, 10599514554463239458u64)
 },
 
 _ => {
@@ -32653,7 +32701,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 _input.close_peek_context()?;
@@ -32666,7 +32714,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 accum.push(next_elem)
@@ -32681,7 +32729,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 chars.clone()
@@ -32806,7 +32854,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32891,7 +32939,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 };
 let extent_count = {
@@ -32932,7 +32980,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 1872233699568519226u64)
+try_sub!(x, 16u64, 9159119361499271180u64)
 },
 
 _ => {
@@ -33024,7 +33072,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7432469293302627017u64)
+try_sub!(x, 16u64, 3490919313637905107u64)
 },
 
 _ => {
@@ -33134,7 +33182,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33156,7 +33204,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 };
 let extent_length = match length_size {
@@ -33178,7 +33226,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33201,7 +33249,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9331389203258424019u64)
+try_sub!(x, 16u64, 3585635225240718191u64)
 },
 
 _ => {
@@ -33256,7 +33304,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15311158871930328757u64)
+try_sub!(x, 16u64, 237665900562449517u64)
 },
 
 _ => {
@@ -33311,7 +33359,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3585635225240718191u64)
+try_sub!(x, 16u64, 12552648416444111338u64)
 },
 
 _ => {
@@ -33412,7 +33460,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 _input.close_peek_context()?;
@@ -33425,7 +33473,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 accum.push(next_elem)
@@ -33440,7 +33488,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 chars.clone()
@@ -33462,7 +33510,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 _input.close_peek_context()?;
@@ -33475,7 +33523,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 accum.push(next_elem)
@@ -33490,7 +33538,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 chars.clone()
@@ -33512,7 +33560,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 _input.close_peek_context()?;
@@ -33525,7 +33573,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 accum.push(next_elem)
@@ -33540,7 +33588,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 chars.clone()
@@ -33586,7 +33634,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 _input.close_peek_context()?;
@@ -33599,7 +33647,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 accum.push(next_elem)
@@ -33614,7 +33662,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 chars.clone()
@@ -33661,7 +33709,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 _input.close_peek_context()?;
@@ -33674,7 +33722,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 accum.push(next_elem)
@@ -33689,7 +33737,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 chars.clone()
@@ -33716,7 +33764,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 _input.close_peek_context()?;
@@ -33729,7 +33777,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 accum.push(next_elem)
@@ -33744,7 +33792,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 chars.clone()
@@ -33759,7 +33807,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 let marker = {
@@ -33767,7 +33815,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33922,11 +33970,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34047,11 +34095,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34067,7 +34115,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 }
 };
@@ -34173,11 +34221,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34202,7 +34250,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 let marker = {
@@ -34210,7 +34258,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34233,11 +34281,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34255,7 +34303,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 })
 }
@@ -34353,11 +34401,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34470,7 +34518,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 })
 }
@@ -34536,11 +34584,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34613,7 +34661,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 })
 }
@@ -34718,11 +34766,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34750,7 +34798,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 let marker = {
@@ -34758,7 +34806,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 jpeg_soi { marker }
@@ -34877,11 +34925,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34909,7 +34957,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 let marker = {
@@ -34917,7 +34965,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 jpeg_soi { marker }
@@ -35080,13 +35128,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 _input.close_peek_context()?;
@@ -35191,13 +35239,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 _input.close_peek_context()?;
@@ -35251,7 +35299,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 })
 }
@@ -35271,7 +35319,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 _input.close_peek_context()?;
@@ -35284,7 +35332,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 },
 
@@ -35295,7 +35343,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 let arg1 = {
@@ -35303,7 +35351,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 (arg0, arg1)
@@ -35312,7 +35360,7 @@ return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 })
 }
@@ -35324,7 +35372,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 let marker = {
@@ -35332,7 +35380,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35345,7 +35393,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 let marker = {
@@ -35353,7 +35401,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35366,7 +35414,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 let marker = {
@@ -35374,7 +35422,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35387,7 +35435,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 let marker = {
@@ -35395,7 +35443,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35408,7 +35456,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 let marker = {
@@ -35416,7 +35464,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35429,7 +35477,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 let marker = {
@@ -35437,7 +35485,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35450,7 +35498,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 let marker = {
@@ -35458,7 +35506,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35471,7 +35519,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 let marker = {
@@ -35479,7 +35527,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35496,7 +35544,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
+return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
 }
 };
 let image_components = {
@@ -35516,7 +35564,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
+return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
 }
 };
 let end_spectral_selection = {
@@ -35528,7 +35576,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4825757476091239776u64));
+return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35565,7 +35613,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
+return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
 })
 }
 
@@ -35583,7 +35631,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
+return Err(ParseError::FalsifiedWhere(180881308211696508u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35737,13 +35785,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14962551735998681614u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2007599397777734421u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 _input.close_peek_context()?;
@@ -35807,7 +35855,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18069850277258932991u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 let marker = {
@@ -35815,7 +35863,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 jpeg_soi { marker }
@@ -35842,7 +35890,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 let marker = {
@@ -35850,7 +35898,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 jpeg_soi { marker }
@@ -35877,7 +35925,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -35885,7 +35933,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -35912,7 +35960,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -35920,7 +35968,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -35947,7 +35995,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -35955,7 +36003,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -35982,7 +36030,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -35990,7 +36038,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -36017,7 +36065,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -36025,7 +36073,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -36052,7 +36100,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -36060,7 +36108,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -36087,7 +36135,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36095,7 +36143,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36122,7 +36170,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36130,7 +36178,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -36157,7 +36205,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -36165,7 +36213,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -36192,7 +36240,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 let marker = {
@@ -36200,7 +36248,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 jpeg_soi { marker }
@@ -36227,7 +36275,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 let marker = {
@@ -36235,7 +36283,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 jpeg_soi { marker }
@@ -36265,7 +36313,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8284996377131534070u64));
+return Err(ParseError::FalsifiedWhere(787921071240225899u64));
 }
 };
 let num_lines = {
@@ -36284,7 +36332,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16948595091237008543u64));
+return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
 }
 };
 let num_image_components = {
@@ -36296,7 +36344,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(108256050843388088u64));
+return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
 }
 };
 let image_components = {
@@ -36328,7 +36376,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
+return Err(ParseError::FalsifiedWhere(14703397633096852322u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36342,7 +36390,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -36350,7 +36398,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -36400,7 +36448,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 let marker = {
@@ -36408,7 +36456,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 jpeg_soi { marker }
@@ -36435,7 +36483,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 let marker = {
@@ -36443,7 +36491,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 jpeg_soi { marker }
@@ -36470,7 +36518,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let marker = {
@@ -36478,7 +36526,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 jpeg_soi { marker }
@@ -36505,7 +36553,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 let marker = {
@@ -36513,7 +36561,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 jpeg_soi { marker }
@@ -36540,7 +36588,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 let marker = {
@@ -36548,7 +36596,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 jpeg_soi { marker }
@@ -36575,7 +36623,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 let marker = {
@@ -36583,7 +36631,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 jpeg_soi { marker }
@@ -36634,7 +36682,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 let marker = {
@@ -36642,7 +36690,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 jpeg_soi { marker }
@@ -36693,7 +36741,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 let marker = {
@@ -36701,7 +36749,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 jpeg_soi { marker }
@@ -36752,7 +36800,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 let marker = {
@@ -36760,7 +36808,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 jpeg_soi { marker }
@@ -36811,7 +36859,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 let marker = {
@@ -36819,7 +36867,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 jpeg_soi { marker }
@@ -36870,7 +36918,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 let marker = {
@@ -36878,7 +36926,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 jpeg_soi { marker }
@@ -36929,7 +36977,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 let marker = {
@@ -36937,7 +36985,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 jpeg_soi { marker }
@@ -36988,7 +37036,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 let marker = {
@@ -36996,7 +37044,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 jpeg_soi { marker }
@@ -37047,7 +37095,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 let marker = {
@@ -37055,7 +37103,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 jpeg_soi { marker }
@@ -37106,7 +37154,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 let marker = {
@@ -37114,7 +37162,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 jpeg_soi { marker }
@@ -37165,7 +37213,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 let marker = {
@@ -37173,7 +37221,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 jpeg_soi { marker }
@@ -37224,7 +37272,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 let marker = {
@@ -37232,7 +37280,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 jpeg_soi { marker }
@@ -37283,7 +37331,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 let marker = {
@@ -37291,7 +37339,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 jpeg_soi { marker }
@@ -37342,7 +37390,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 let marker = {
@@ -37350,7 +37398,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 jpeg_soi { marker }
@@ -37401,7 +37449,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 let marker = {
@@ -37409,7 +37457,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 jpeg_soi { marker }
@@ -37471,7 +37519,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 _input.close_peek_context()?;
@@ -37484,7 +37532,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 accum.push(next_elem)
@@ -37499,7 +37547,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 chars.clone()
@@ -37559,7 +37607,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37615,7 +37663,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 _input.close_peek_context()?;
@@ -37628,7 +37676,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 accum.push(next_elem)
@@ -37643,7 +37691,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 chars.clone()
@@ -37704,7 +37752,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9066809807580136020u64));
+return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
 }
 };
 let density_x = {
@@ -37719,7 +37767,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12347909352078849049u64));
+return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
 }
 };
 let density_y = {
@@ -37734,7 +37782,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10900015085754267678u64));
+return Err(ParseError::FalsifiedWhere(16535687493193441589u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37796,7 +37844,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
+return Err(ParseError::FalsifiedWhere(16678380679225161433u64));
 })
 }
 
@@ -37851,7 +37899,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
+return Err(ParseError::FalsifiedWhere(11416999240256111317u64));
 })
 }
 
@@ -37886,7 +37934,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 })
 }
@@ -37971,7 +38019,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 _input.close_peek_context()?;
@@ -37992,7 +38040,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 accum.push(next_elem)
@@ -38025,7 +38073,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 accum.push(next_elem)
@@ -38046,7 +38094,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 let arg1 = {
@@ -38054,7 +38102,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 let arg2 = {
@@ -38062,7 +38110,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38112,7 +38160,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 }
 },
@@ -38122,7 +38170,7 @@ return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 _input.close_peek_context()?;
@@ -38141,7 +38189,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 })
 }
@@ -38153,7 +38201,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38177,7 +38225,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 }
 },
@@ -38187,7 +38235,7 @@ return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 _input.close_peek_context()?;
@@ -38204,7 +38252,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 }
 };
@@ -38229,11 +38277,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38251,7 +38299,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 })
 }
@@ -38263,7 +38311,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 let label = {
@@ -38271,7 +38319,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 let block_size = {
@@ -38279,7 +38327,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 let identifier = {
@@ -38307,7 +38355,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 _input.close_peek_context()?;
@@ -38334,7 +38382,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 let label = {
@@ -38342,7 +38390,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 let comment_data = {
@@ -38361,7 +38409,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 _input.close_peek_context()?;
@@ -38388,7 +38436,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 let data = {
@@ -38408,7 +38456,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 })
 }
 
@@ -38419,7 +38467,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 let label = {
@@ -38427,7 +38475,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 let block_size = {
@@ -38435,7 +38483,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38463,7 +38511,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 _input.close_peek_context()?;
@@ -38482,7 +38530,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 })
 }
@@ -38511,7 +38559,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 let label = {
@@ -38519,7 +38567,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 let block_size = {
@@ -38527,7 +38575,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 let text_grid_left_position = {
@@ -38566,7 +38614,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 _input.close_peek_context()?;
@@ -38593,7 +38641,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let image_left_position = {
@@ -38643,7 +38691,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 _input.close_peek_context()?;
@@ -38775,55 +38823,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 _input.close_peek_context()?;
@@ -38838,7 +38886,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 accum.push(next_elem)
@@ -38851,7 +38899,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 (arg0, arg1)
@@ -38879,7 +38927,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -38912,7 +38960,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18414062761433945694u64));
+return Err(ParseError::FalsifiedWhere(12018148152002987023u64));
 }
 };
 let num_image_components = {
@@ -38924,7 +38972,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16815582401460622228u64));
+return Err(ParseError::FalsifiedWhere(10784354724006973021u64));
 }
 };
 let image_components = {
@@ -38947,7 +38995,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -38969,7 +39017,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6170312119912404925u64));
+return Err(ParseError::FalsifiedWhere(7814984350356971595u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -38983,7 +39031,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 };
 let marker = {
@@ -38991,7 +39039,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 };
 jpeg_soi { marker }
@@ -39042,7 +39090,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 };
 let marker = {
@@ -39050,7 +39098,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 };
 jpeg_soi { marker }
@@ -39088,7 +39136,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8834940284440365505u64));
+return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
 }
 };
 let num_image_components = {
@@ -39100,7 +39148,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11138532932579103751u64));
+return Err(ParseError::FalsifiedWhere(8003682420837492218u64));
 }
 };
 let image_components = {
@@ -39122,7 +39170,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 let marker = {
@@ -39130,7 +39178,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(5694490278249537684u64));
 }
 };
 jpeg_soi { marker }
@@ -39165,7 +39213,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15666641356442195125u64));
+return Err(ParseError::FalsifiedWhere(17498679062468273557u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/helper.rs b/src/helper.rs
index ff08c5b..2d08c0e 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -73,7 +73,7 @@ fn mask_bits_u8(x: Expr, high_bits_used: u8, nbits: u8) -> Expr {
         8 - high_bits_used
     );
     let shift = 8 - high_bits_used - nbits;
-    let mask = (1 << nbits) - 1;
+    let mask = ((1u16 << nbits) - 1) as u8;
     let shifted = if shift == 0 {
         x
     } else {
@@ -92,7 +92,7 @@ fn mask_bits_u16(x: Expr, high_bits_used: u8, nbits: u8) -> Expr {
         16 - high_bits_used
     );
     let shift = 16 - (high_bits_used + nbits) as u16;
-    let mask = (1u16 << nbits) - 1;
+    let mask = ((1u32 << nbits) - 1) as u16;
     let shifted = if shift == 0 {
         x
     } else {
@@ -126,7 +126,6 @@ pub fn bit_fields_u8<const N: usize>(bit_fields: [BitFieldKind; N]) -> Format {
     let mut fields = Vec::new();
 
     // mask value that should yield `0` when `&`-ed with the original u8, used to enforce must-be-zero reserved fields
-    // NOTE - currently, we set this value but don't directly use it
     let mut unset_bits_mask: u8 = 0;
 
     let mut high_bits_used = 0;
@@ -141,7 +140,7 @@ pub fn bit_fields_u8<const N: usize>(bit_fields: [BitFieldKind; N]) -> Format {
             };
             fields.push((Label::Borrowed(name), compute(field_value)));
         } else if bit_field.check_zero() {
-            unset_bits_mask &= ((1u8 << nbits) - 1) << (8 - (high_bits_used + nbits));
+            unset_bits_mask |= (((1u16 << nbits) - 1) << (8 - (high_bits_used + nbits))) as u8;
         }
         high_bits_used += nbits;
     }
@@ -214,7 +213,7 @@ pub fn bit_fields_u16<const N: usize>(bit_fields: [BitFieldKind; N]) -> Format {
             };
             fields.push((Label::Borrowed(name), compute(field_value)));
         } else if bit_field.check_zero() {
-            unset_bits_mask &= ((1u16 << nbits) - 1) << (16 - (high_bits_used + nbits));
+            unset_bits_mask |= (((1u32 << nbits) - 1) << (16 - (high_bits_used + nbits))) as u16;
         }
         high_bits_used += nbits;
     }
-- 
2.43.0

