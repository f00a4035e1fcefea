From 52f7104dc5e69e3eba4b42f4f25a050452445b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:36 +0000
Subject: [PATCH 001/109] fix: keep exponents intact when reading and writing
 path numbers

Writing stripped the trailing zero of an exponent (4.8e20 became 4.8e2) and
could write a number with an exponent directly after another number.
Reading let the exponent of a number swallow the fraction of the next one.
---
 crates/oxvg_parse/src/types/number.rs     | 2 --
 crates/oxvg_path/src/paths/svg/command.rs | 8 +++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_parse/src/types/number.rs b/crates/oxvg_parse/src/types/number.rs
index 23fc0a4..482150b 100644
--- a/crates/oxvg_parse/src/types/number.rs
+++ b/crates/oxvg_parse/src/types/number.rs
@@ -19,8 +19,6 @@ impl<'input> Parse<'input> for f64 {
                 let exponent_cursor = input.cursor();
                 input.skip_matches(|char| matches!(char, '-' | '+'));
                 input.skip_matches(|char| char.is_ascii_digit());
-                input.skip_char('.');
-                input.skip_matches(|char| char.is_ascii_digit());
                 if exponent_cursor == input.cursor() {
                     return Err(Error::InvalidNumber);
                 }
diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index 5ab200d..c151207 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -506,7 +506,9 @@ impl Args<'_> {
     /// command.
     /// This check is only needed when `self` is for an implicit command.
     pub(crate) fn is_space_needed(&self, prev: &Self) -> bool {
-        (prev.last() % 1.0) == 0.0 || self.first() >= &1.0 || self.first() == &0.0
+        let first = *self.first();
+        // Numbers under 1e-4 are written with an exponent, so don't start with `.`
+        (prev.last() % 1.0) == 0.0 || first >= 1.0 || first < 1e-4
     }
 }
 
@@ -514,8 +516,8 @@ pub(crate) fn short_number_from_buffer<W: std::fmt::Write>(
     mut raw: &str,
     w: &mut W,
 ) -> std::fmt::Result {
-    // Remove trailing zeros
-    if raw.contains('.') {
+    // Remove trailing zeros, leaving those of an exponent
+    if raw.contains('.') && !raw.contains('e') {
         raw = raw.strip_suffix('0').unwrap_or(raw);
     }
     if matches!(raw, "0." | "-0.") {
-- 
2.43.0


From b03a893fe4472faa2a3a4ec2165e27efb89e18ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:36 +0000
Subject: [PATCH 002/109] fix: don't repeat a path close command implicitly

Numbers or whitespace following Z were read as further close commands, which
never consumed input for numbers and so never ended.
---
 crates/oxvg_path/src/parser.rs            | 3 +++
 crates/oxvg_path/src/paths/svg/command.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/crates/oxvg_path/src/parser.rs b/crates/oxvg_path/src/parser.rs
index 83c8048..bdb71e7 100644
--- a/crates/oxvg_path/src/parser.rs
+++ b/crates/oxvg_path/src/parser.rs
@@ -34,6 +34,9 @@ impl<'input> Path {
                 input.skip_char(',');
                 input.skip_whitespace();
             }
+            if input.is_empty() {
+                break;
+            }
             let mut command_id = input
                 .try_parse(command::ID::parse)
                 .or_else(|_| {
diff --git a/crates/oxvg_path/src/paths/svg/command.rs b/crates/oxvg_path/src/paths/svg/command.rs
index c151207..26f9ceb 100644
--- a/crates/oxvg_path/src/paths/svg/command.rs
+++ b/crates/oxvg_path/src/paths/svg/command.rs
@@ -389,6 +389,8 @@ impl ID {
         match self {
             Self::MoveTo => Self::LineTo,
             Self::MoveBy => Self::LineBy,
+            // A close takes no arguments, so it can't be repeated implicitly
+            Self::ClosePath => Self::None,
             Self::Implicit(c) => c.next_implicit(),
             c => c.clone(),
         }
-- 
2.43.0


From 0a49362615cca57b3587f4a59820a978e0a2cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:36 +0000
Subject: [PATCH 003/109] fix: step the value parser by whole characters and
 from the start only

Reading a multi-byte character left the cursor within it, which panics on the
next slice. Skipping a character also counted matches at the end of the input.
---
 crates/oxvg_parse/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_parse/src/lib.rs b/crates/oxvg_parse/src/lib.rs
index 7dfda4d..e99735e 100644
--- a/crates/oxvg_parse/src/lib.rs
+++ b/crates/oxvg_parse/src/lib.rs
@@ -40,7 +40,7 @@ impl<'input> Parser<'input> {
 
     /// Go to the next value without reading
     pub fn advance(&mut self) {
-        self.cursor += 1;
+        self.cursor += self.current().map_or(0, char::len_utf8);
     }
 
     /// Move backwards without reading
@@ -121,7 +121,7 @@ impl<'input> Parser<'input> {
 
     /// Moves the cursor forward the number of matching characters
     pub fn skip_char(&mut self, char: char) {
-        self.skip_internal(self.slice().trim_matches(char).len());
+        self.skip_internal(self.slice().trim_start_matches(char).len());
     }
 
     /// Moves the cursor forward the number of whitespace characters
@@ -213,10 +213,10 @@ impl<'input> Parser<'input> {
     ///
     /// If the next set of characters does not match the given string
     pub fn expect_str(&mut self, expected: &'static str) -> Result<(), Error<'input>> {
-        let cursor = self.cursor;
-        self.cursor += expected.len();
-        let received = self.slice_from(cursor);
+        let slice = self.slice();
+        let received = slice.get(..expected.len()).unwrap_or(slice);
         if received == expected {
+            self.cursor += expected.len();
             Ok(())
         } else {
             Err(Error::ExpectedString { expected, received })
-- 
2.43.0


From 1108571d3b904cc4659e0af1c687150e498c6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:04 +0000
Subject: [PATCH 004/109] fix: compare a sub-path's end with its own start when
 closing it

---
 crates/oxvg_path/src/paths/segment/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index d7812ee..c68d826 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -205,8 +205,8 @@ impl Segment {
         }
 
         let tolerance_squared = tolerance.positional * tolerance.positional;
-        result.closed =
-            start.distance_squared(result.data().last().unwrap().end_point()) < tolerance_squared;
+        let end = result.data().last().unwrap().end_point();
+        result.closed = result.start.distance_squared(end) < tolerance_squared;
         result
     }
 }
-- 
2.43.0


From 89e5c308388f6870e06f340d9382ec60f6d959c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:04 +0000
Subject: [PATCH 005/109] fix: only write a close command for the closing line
 of a sub-path

---
 crates/oxvg_path/src/paths/segment/convert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index c68d826..7faf76d 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -275,6 +275,7 @@ impl Path {
                     segment_start,
                     start,
                     *to,
+                    close,
                     implicit.as_ref(),
                     precision,
                 ),
@@ -334,11 +335,12 @@ impl Path {
         segment_start: Point,
         start: Point,
         to: Point,
+        close: bool,
         implicit: Option<&ID>,
         precision: TolerancePrecision,
     ) -> command::Data {
         let by = to - start;
-        if start == to {
+        if close && start == to {
             command::Data::ClosePath
         } else if precision.round(to.x) == precision.round(start.x) {
             let v_to = command::Data::VerticalLineTo([to.y]);
@@ -348,7 +350,7 @@ impl Path {
             let h_to = command::Data::HorizontalLineTo([to.x]);
             let h_by = command::Data::HorizontalLineBy([by.x]);
             compactest(previous, h_by, h_to, implicit, precision)
-        } else if to == segment_start {
+        } else if close && to == segment_start {
             command::Data::ClosePath
         } else {
             let l_to = command::Data::LineTo(to.into());
-- 
2.43.0


From 9318a49006b71e0f9473d3aea006c568daf47170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:25 +0000
Subject: [PATCH 006/109] fix: only reflect control points of the same curve
 degree in paths

---
 crates/oxvg_path/src/paths/segment/convert.rs | 67 +++++++++++++------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 7faf76d..2b97567 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -10,13 +10,37 @@ use crate::{
     paths::segment::{Data, IterStartCursorItem, Path, Segment},
 };
 
+/// The last control point of a curve, which can only be reflected by a smooth
+/// command of the same degree.
+#[derive(Clone, Copy)]
+pub(crate) enum Control {
+    Cubic(Point),
+    Quadratic(Point),
+}
+
+impl Control {
+    fn cubic(self) -> Option<Point> {
+        match self {
+            Self::Cubic(p) => Some(p),
+            Self::Quadratic(_) => None,
+        }
+    }
+
+    fn quadratic(self) -> Option<Point> {
+        match self {
+            Self::Quadratic(p) => Some(p),
+            Self::Cubic(_) => None,
+        }
+    }
+}
+
 impl Data {
     #[allow(clippy::too_many_lines)]
     pub(crate) fn take(
         command: &command::Data,
         start: &mut Point,
         cursor: &mut Point,
-        control: &mut Option<Point>,
+        control: &mut Option<Control>,
         z_end: &mut bool,
     ) -> Option<Self> {
         let last_control = control.take();
@@ -60,7 +84,7 @@ impl Data {
                 let end_control = *cursor + Point::new(a[2], a[3]);
                 let end_point = *cursor + Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Self::CurveTo(Curve::new(
                     start_control,
@@ -72,14 +96,14 @@ impl Data {
                 let end_control = Point::new(a[2], a[3]);
                 let end_point = Point::new(a[4], a[5]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end_point;
                 Some(Data::CurveTo(Curve::from(*a)))
             }
             command::Data::QuadraticBezierBy(a) => {
                 let quad_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
@@ -88,14 +112,14 @@ impl Data {
             command::Data::QuadraticBezierTo(a) => {
                 let quad_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
-                *control = Some(quad_control);
+                *control = Some(Control::Quadratic(quad_control));
 
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(quad_control, start, end)))
             }
             command::Data::SmoothBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::cubic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -103,12 +127,12 @@ impl Data {
                 let end_control = *cursor + Point::new(a[0], a[1]);
                 let end = *cursor + Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::cubic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
@@ -116,32 +140,32 @@ impl Data {
                 let end_control = Point::new(a[0], a[1]);
                 let end = Point::new(a[2], a[3]);
 
-                *control = Some(end_control);
+                *control = Some(Control::Cubic(end_control));
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new(start_control, end_control, end)))
             }
             command::Data::SmoothQuadraticBezierBy(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::quadratic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = *cursor + Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
             }
             command::Data::SmoothQuadraticBezierTo(a) => {
-                let start_control = if let Some(prev_cp) = last_control {
+                let start_control = if let Some(prev_cp) = last_control.and_then(Control::quadratic) {
                     prev_cp.reflect(*cursor)
                 } else {
                     *cursor
                 };
                 let end = Point::from(*a);
 
-                *control = Some(start_control);
+                *control = Some(Control::Quadratic(start_control));
                 let start = *cursor;
                 *cursor = end;
                 Some(Data::CurveTo(Curve::new_quad(start_control, start, end)))
@@ -362,14 +386,14 @@ impl Path {
     #[allow(clippy::too_many_arguments)]
     pub(crate) fn to_svg_curve(
         previous: Option<&command::Data>,
-        control: Option<Point>,
+        control: Option<Control>,
         start: Point,
         curve: &Curve,
         next: Option<&Data>,
         implicit: Option<&ID>,
         tolerance_squared: ToleranceSquared,
         precision: TolerancePrecision,
-    ) -> (command::Data, Option<Point>) {
+    ) -> (command::Data, Option<Control>) {
         let start_control = curve.start_control;
         let end_control = curve.end_control;
         let to = curve.end_point;
@@ -377,8 +401,11 @@ impl Path {
 
         let mut candidates = Vec::with_capacity(4);
 
-        let (_, smooth_bezier, quadratic_bezier, smooth_quadratic_bezier) =
-            curve.types(start, control, tolerance_squared);
+        let quad_control = control.and_then(Control::quadratic);
+        let smooth_bezier =
+            curve.smooth_bezier(start, control.and_then(Control::cubic), tolerance_squared);
+        let (_, _, quadratic_bezier, smooth_quadratic_bezier) =
+            curve.types(start, quad_control, tolerance_squared);
         if let Some(SmoothBezierTo {
             end_control,
             end_point: _,
@@ -460,13 +487,13 @@ impl Path {
         let result = compactest_vec(previous, candidates, implicit, precision);
         let control = match result.id().as_explicit() {
             ID::QuadraticBezierTo | ID::QuadraticBezierBy => {
-                quadratic_bezier.map(|q| q.quad_control)
+                quadratic_bezier.map(|q| Control::Quadratic(q.quad_control))
             }
             ID::SmoothQuadraticBezierTo | ID::SmoothQuadraticBezierBy => {
-                control.map(|c| c.reflect(start))
+                quad_control.map(|c| Control::Quadratic(c.reflect(start)))
             }
             ID::CubicBezierTo | ID::CubicBezierBy | ID::SmoothBezierBy | ID::SmoothBezierTo => {
-                Some(quadratic_bezier.map_or(end_control, |q| q.quad_control))
+                Some(Control::Cubic(end_control))
             }
             _ => None,
         };
-- 
2.43.0


From 543fb09e55e8122f1f784c47fc04ae15baba7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:58 +0000
Subject: [PATCH 007/109] fix: don't treat a looping curve as a straight line

---
 crates/oxvg_path/src/geometry/curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_path/src/geometry/curve.rs b/crates/oxvg_path/src/geometry/curve.rs
index 27561e8..e4c6453 100644
--- a/crates/oxvg_path/src/geometry/curve.rs
+++ b/crates/oxvg_path/src/geometry/curve.rs
@@ -289,7 +289,9 @@ impl Curve {
     pub fn is_straight(&self, start: Point, tolerance: &Tolerance) -> bool {
         let chord = start.distance(self.end_point);
         if chord < tolerance.positional {
-            return true;
+            // Controls can still pull the curve into a loop
+            return start.distance(self.start_control) < tolerance.positional
+                && start.distance(self.end_control) < tolerance.positional;
         }
         let tolerance_scaled = tolerance.positional * chord;
         start.cross(self.end_point, self.start_control).abs() < tolerance_scaled
-- 
2.43.0


From 27cb6e861611806cc629536a1876286d438ac61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:58 +0000
Subject: [PATCH 008/109] fix: don't join arcs drawn in opposite directions

---
 crates/oxvg_path/src/geometry/arc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index 9250ca7..abfcd51 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -513,6 +513,11 @@ impl Arc {
         tolerance: &Tolerance,
         tolerance_squared: ToleranceSquared,
     ) -> bool {
+        // Arcs turning back on each other can't be drawn as one
+        if self.sweep_angle().signum() != other.sweep_angle().signum() {
+            return false;
+        }
+
         let self_chord_sq = self.start_point().distance_squared(self.end_point());
         let other_chord_sq = other.start_point().distance_squared(other.end_point());
 
-- 
2.43.0


From bac35f8a98e1167f400e76192ebeb03d3f5fcae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:55 +0000
Subject: [PATCH 009/109] fix: don't fit an arc to a curve that doubles back

---
 crates/oxvg_path/src/geometry/ellipses.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/ellipses.rs b/crates/oxvg_path/src/geometry/ellipses.rs
index cc57860..3c84187 100644
--- a/crates/oxvg_path/src/geometry/ellipses.rs
+++ b/crates/oxvg_path/src/geometry/ellipses.rs
@@ -162,6 +162,20 @@ impl Ellipses {
         };
         let center = Point(center);
 
+        // validate direction, since a curve that doubles back isn't an arc
+        let quarter = curve.point_at_from(start, 0.25);
+        let three_quarters = curve.point_at_from(start, 0.75);
+        if [
+            (quarter - start, middle - quarter),
+            (middle - quarter, three_quarters - middle),
+            (three_quarters - middle, end - three_quarters),
+        ]
+        .into_iter()
+        .any(|(a, b)| a.dot(b) < 0.0)
+        {
+            return None;
+        }
+
         // validate circle
         let radius = center.distance(start);
         if radius < 1e15
-- 
2.43.0


From a0ab50526af972ea974273058e8dc765b647be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:48 +0000
Subject: [PATCH 010/109] fix: don't join arcs beyond a full turn

---
 crates/oxvg_path/src/geometry/arc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index abfcd51..169a3db 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -518,6 +518,12 @@ impl Arc {
             return false;
         }
 
+        // Arcs overlapping each other can't be drawn as one
+        let overlap = (self.sweep_angle() + other.sweep_angle()).abs() - 2.0 * PI;
+        if overlap * self.radii().x.max(self.radii().y) > 1e-1 {
+            return false;
+        }
+
         let self_chord_sq = self.start_point().distance_squared(self.end_point());
         let other_chord_sq = other.start_point().distance_squared(other.end_point());
 
-- 
2.43.0


From d8262bf1e5673557245ac2f1c4697293e30a6c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:05 +0000
Subject: [PATCH 011/109] fix: write processing instructions anywhere in the
 document

---
 crates/oxvg_ast/src/xmlwriter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d673cc1..d1b20b9 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -487,9 +487,16 @@ impl<'input, W: Write> XmlWriter<'input, W> {
     /// - When called twice.
     #[inline(never)]
     pub fn write_declaration(&mut self, target: &Atom, value: &Option<Atom>) -> Result {
-        if self.state != State::Empty {
+        if self.state != State::Empty && &**target == "xml" {
             return Err(XmlWriterError::DeclarationAlreadyWritten);
         }
+        if self.state == State::Attributes {
+            self.write_open_element()?;
+        }
+        if self.state != State::Empty {
+            self.write_new_line()?;
+        }
+        self.write_node_indent()?;
         self.fmt_writer
             .writer
             .write_fmt(format_args!("<?{target}"))
-- 
2.43.0


From d1ca4e63321af2e642d9d5c5d1677b7c14b1bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:05 +0000
Subject: [PATCH 012/109] fix: limit xml:space to the element it's written on

---
 crates/oxvg_ast/src/xmlwriter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index d1b20b9..4184962 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -348,6 +348,8 @@ enum State {
 struct DepthData<'input> {
     element_name: Option<ElementId<'input>>,
     has_children: bool,
+    // The value to restore when leaving the element
+    preserve_whitespaces: bool,
 }
 
 /// This wrapper writer is so that we can make sure formatted strings are properly escaped too,
@@ -560,6 +562,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -601,6 +604,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
         self.depth_stack.push(DepthData {
             element_name: Some(name.clone()),
             has_children: false,
+            preserve_whitespaces: self.preserve_whitespaces,
         });
 
         self.state = State::Attributes;
@@ -960,6 +964,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
             self.depth_stack.push(DepthData {
                 element_name: None,
                 has_children: false,
+                preserve_whitespaces: self.preserve_whitespaces,
             });
         }
 
@@ -1021,6 +1026,7 @@ impl<'input, W: Write> XmlWriter<'input, W> {
                     .write_all(b"/>")
                     .map_err(XmlWriterError::IO)?;
             }
+            self.preserve_whitespaces = depth.preserve_whitespaces;
         }
 
         self.state = State::Document;
-- 
2.43.0


From 109798d5a46b2e1f553eb41be296c9c40e5e4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:14 +0000
Subject: [PATCH 013/109] fix: escape ampersands in stylesheets

---
 crates/oxvg_ast/src/xmlwriter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 4184962..678ac01 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -385,6 +385,10 @@ impl<W: Write> FmtWriter<W> {
         XmlWriterError::IO(io::Error::from(error_kind))
     }
 
+    fn write_escaped_style(&mut self, s: &str) -> io::Result<()> {
+        self.writer.write_all(s.replace('&', "&amp;").as_bytes())
+    }
+
     fn write_escaped(&mut self, s: &str, escape_quotes: bool) -> io::Result<()> {
         let mut part_start_pos = 0;
         for (byte_pos, byte) in s.bytes().enumerate() {
@@ -432,7 +436,8 @@ impl<W: Write> fmt::Write for FmtWriter<W> {
             Escape::Text => self.write_escaped(s, false),
             // We don't bother escaping double hyphen (--) in comment as it's
             // unlikely to ever happen, and even libxml2 does not do it.
-            Escape::Comment | Escape::CData | Escape::Style => self.writer.write_all(s.as_bytes()),
+            Escape::Comment | Escape::CData => self.writer.write_all(s.as_bytes()),
+            Escape::Style => self.write_escaped_style(s),
         };
         if let Err(error) = error.as_ref() {
             self.error_kind = Some(error.kind());
-- 
2.43.0


From da4d8357cfc6cedb76055f85a7d2821a74533836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:44 +0000
Subject: [PATCH 014/109] fix: keep the whitespace that separates inline text
 when minifying

---
 crates/oxvg_ast/src/serialize.rs | 10 +----
 crates/oxvg_ast/src/xmlwriter.rs | 74 +++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/crates/oxvg_ast/src/serialize.rs b/crates/oxvg_ast/src/serialize.rs
index 31a9acc..272cd07 100644
--- a/crates/oxvg_ast/src/serialize.rs
+++ b/crates/oxvg_ast/src/serialize.rs
@@ -123,14 +123,8 @@ fn serialize_node<'arena, W: Write>(
         serialize_node(
             child,
             xml,
-            node.first_child().is_none_or(|n| n == child)
-                || child
-                    .previous_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
-            node.last_child().is_none_or(|n| n == child)
-                || child
-                    .next_sibling()
-                    .is_some_and(|n| n.node_type() == node::Type::Text),
+            node.first_child().is_none_or(|n| n == child),
+            node.last_child().is_none_or(|n| n == child),
         )?;
     }
 
diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 678ac01..2176d25 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -824,42 +824,46 @@ impl<'input, W: Write> XmlWriter<'input, W> {
 
         match space {
             Space::Default => {
-                if text.trim_start().is_empty() {
-                    return Ok(());
-                }
-                self.before_write_text(false)?;
-                let mut parts = text.split_whitespace();
-                if let Some(first) = parts.next() {
-                    let mut chars = text.chars();
-                    if !is_first
-                        && self.opt.indent == Indent::None
-                        && chars.next().is_some_and(char::is_whitespace)
-                    {
+                // Whitespace between inline content collapses to a space but isn't removed
+                let is_inline = self.depth_stack.iter().any(is_text_element);
+                let is_nested = is_inline && !self.depth_stack.last().is_some_and(is_text_element);
+                let keep_space = self.opt.indent == Indent::None;
+                let space_before =
+                    keep_space && (is_nested || !is_first) && text.starts_with(is_space);
+                let space_after = keep_space && (is_nested || !is_last) && text.ends_with(is_space);
+
+                let mut parts = text.split(is_space).filter(|part| !part.is_empty());
+                let Some(first) = parts.next() else {
+                    if is_inline && space_before && space_after {
+                        self.before_write_text(false)?;
                         self.fmt_writer
                             .write_char(' ')
                             .map_err(|_| self.fmt_writer.take_err())?;
+                        self.state = State::Document;
                     }
-
+                    return Ok(());
+                };
+                self.before_write_text(false)?;
+                if space_before {
                     self.fmt_writer
-                        .write_str(first)
+                        .write_char(' ')
+                        .map_err(|_| self.fmt_writer.take_err())?;
+                }
+                self.fmt_writer
+                    .write_str(first)
+                    .map_err(|_| self.fmt_writer.take_err())?;
+                for part in parts {
+                    self.fmt_writer
+                        .write_char(' ')
+                        .map_err(|_| self.fmt_writer.take_err())?;
+                    self.fmt_writer
+                        .write_str(part)
+                        .map_err(|_| self.fmt_writer.take_err())?;
+                }
+                if space_after {
+                    self.fmt_writer
+                        .write_char(' ')
                         .map_err(|_| self.fmt_writer.take_err())?;
-                    for part in parts {
-                        self.fmt_writer
-                            .write_char(' ')
-                            .map_err(|_| self.fmt_writer.take_err())?;
-                        self.fmt_writer
-                            .write_str(part)
-                            .map_err(|_| self.fmt_writer.take_err())?;
-                    }
-
-                    if !is_last
-                        && self.opt.indent == Indent::None
-                        && text.chars().next_back().is_some_and(char::is_whitespace)
-                    {
-                        self.fmt_writer
-                            .write_char(' ')
-                            .map_err(|_| self.fmt_writer.take_err())?;
-                    }
                 }
             }
             Space::Preserve => {
@@ -1150,6 +1154,16 @@ impl<'input, W: Write> XmlWriter<'input, W> {
     }
 }
 
+fn is_space(char: char) -> bool {
+    matches!(char, ' ' | '\t' | '\n' | '\r')
+}
+
+fn is_text_element(data: &DepthData) -> bool {
+    data.element_name
+        .as_ref()
+        .is_some_and(|name| is_element!(name, Text))
+}
+
 fn is_text_content_element(data: &DepthData) -> bool {
     data.element_name.as_ref().is_some_and(|name| {
         is_element!(
-- 
2.43.0


From 9d8a46b5cfb5729b55cf8c5b38402978098d7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:44 +0000
Subject: [PATCH 015/109] fix: keep line breaks and tabs of attribute values
 when writing

---
 crates/oxvg_ast/src/xmlwriter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_ast/src/xmlwriter.rs b/crates/oxvg_ast/src/xmlwriter.rs
index 2176d25..f5abe74 100644
--- a/crates/oxvg_ast/src/xmlwriter.rs
+++ b/crates/oxvg_ast/src/xmlwriter.rs
@@ -398,6 +398,10 @@ impl<W: Write> FmtWriter<W> {
                 b'<' => Some(b"&lt;"),
                 b'"' if escape_quotes && !self.use_single_quote => Some(b"&quot;"),
                 b'\'' if escape_quotes && self.use_single_quote => Some(b"&apos;"),
+                // These would be read back as spaces
+                b'\n' if escape_quotes => Some(b"&#10;"),
+                b'\t' if escape_quotes => Some(b"&#9;"),
+                b'\r' => Some(b"&#13;"),
                 _ => None,
             };
             if let Some(escaped_char) = escaped_char {
-- 
2.43.0


From cbc22b7417e27f06b1136234878cc98a05b66961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:44 +0000
Subject: [PATCH 016/109] fix: attach parsed stylesheets to their element once

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 81341af..bd7bab7 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -267,7 +267,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     };
     let node = arena.alloc(element);
     if is_style_element {
-        (node, parse_style(arena, &xml_node, node))
+        (node, parse_style(arena, &xml_node))
     } else {
         (node, None)
     }
@@ -276,7 +276,6 @@ fn parse_element<'a, 'input: 'a, 'arena>(
 fn parse_style<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_parent: &roxmltree::Node<'a, '_>,
-    parent: Ref<'a, 'arena>,
 ) -> Option<Ref<'a, 'arena>> {
     let styles = xml_parent
         .children()
@@ -298,7 +297,6 @@ fn parse_style<'a, 'input: 'a, 'arena>(
     }
     let style = NodeData::Style(RefCell::new(rules));
     let node = arena.alloc(style);
-    attach_child(parent, node);
     Some(node)
 }
 
-- 
2.43.0


From 234a7dc82237d4c8b2f509800eb780a0fb858ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:44 +0000
Subject: [PATCH 017/109] fix: limit namespace declarations to the element that
 declares them

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 63 +++++++++++++++++++-------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index bd7bab7..35de31d 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -42,6 +42,17 @@ struct NamespaceMap<'input> {
     uri_to_prefix: HashMap<Option<&'input str>, Option<&'input str>>,
 }
 
+/// The entries that were replaced by a namespace declaration, to be restored
+/// when leaving the element it's declared by.
+#[derive(Debug)]
+#[allow(clippy::option_option)]
+struct ReplacedNamespace<'input> {
+    prefix: Option<&'input str>,
+    uri: Option<&'input str>,
+    old_prefix: Option<Option<&'input str>>,
+    old_uri: Option<Option<&'input str>>,
+}
+
 #[allow(clippy::ref_option)]
 impl<'input> NamespaceMap<'input> {
     fn new() -> Self {
@@ -52,10 +63,24 @@ impl<'input> NamespaceMap<'input> {
         &mut self,
         prefix: Option<&'input str>,
         uri: Option<&'input str>,
-    ) -> Option<(Option<&'input str>, Option<&'input str>)> {
-        let p = self.uri_to_prefix.insert(uri, prefix);
-        let u = self.prefix_to_uri.insert(prefix, uri);
-        Some((p?, u?))
+    ) -> ReplacedNamespace<'input> {
+        ReplacedNamespace {
+            prefix,
+            uri,
+            old_prefix: self.uri_to_prefix.insert(uri, prefix),
+            old_uri: self.prefix_to_uri.insert(prefix, uri),
+        }
+    }
+
+    fn restore(&mut self, replaced: ReplacedNamespace<'input>) {
+        match replaced.old_prefix {
+            Some(prefix) => self.uri_to_prefix.insert(replaced.uri, prefix),
+            None => self.uri_to_prefix.remove(&replaced.uri),
+        };
+        match replaced.old_uri {
+            Some(uri) => self.prefix_to_uri.insert(replaced.prefix, uri),
+            None => self.prefix_to_uri.remove(&replaced.prefix),
+        };
     }
 
     fn get_by_uri(&self, uri: Option<&'input str>) -> Option<&'input str> {
@@ -200,7 +225,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         return Err(ParseError::NodesLimitReached);
     }
 
-    let mut popped_ns: Vec<(Option<&'a str>, Option<&'a str>)> = vec![];
+    let mut popped_ns: Vec<ReplacedNamespace<'a>> = vec![];
     let child = match node.node_type() {
         roxmltree::NodeType::Root => create_root(allocator),
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
@@ -208,6 +233,7 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
             let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
             if let Some(style) = style {
                 attach_child(child, style);
+                restore_namespaces(namespace_map, popped_ns);
                 return Ok(child);
             }
             child
@@ -216,17 +242,24 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::Text => parse_text(allocator, node),
     };
     parse_xml_node_children(child, allocator, node, depth + 1, namespace_map)?;
-    for (prefix, value) in popped_ns {
-        namespace_map.insert(prefix, value);
-    }
+    restore_namespaces(namespace_map, popped_ns);
     Ok(child)
 }
 
+fn restore_namespaces<'a>(
+    namespace_map: &mut NamespaceMap<'a>,
+    popped_ns: Vec<ReplacedNamespace<'a>>,
+) {
+    for replaced in popped_ns.into_iter().rev() {
+        namespace_map.restore(replaced);
+    }
+}
+
 fn parse_element<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_node: roxmltree::Node<'a, 'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
+    popped_ns: &mut Vec<ReplacedNamespace<'a>>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
     let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
 
@@ -363,17 +396,15 @@ fn parse_expanded_name<'a, 'input: 'a>(
 fn find_new_xmlns<'a, 'input: 'a>(
     ns: &'a roxmltree::Namespace<'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<(Option<&'a str>, Option<&'a str>)>,
+    popped_ns: &mut Vec<ReplacedNamespace<'a>>,
 ) -> Option<Attr<'a>> {
     if find_xml_uri(ns, namespace_map) {
         return None;
     }
     let uri = ns.uri();
     if let Some(prefix) = ns.name() {
-        if namespace_map.get_by_prefix(None) != Some(uri)
-            && let Some(popped) = namespace_map.insert(Some(prefix), Some(uri))
-        {
-            popped_ns.push(popped);
+        if namespace_map.get_by_prefix(None) != Some(uri) {
+            popped_ns.push(namespace_map.insert(Some(prefix), Some(uri)));
         }
         // return `xmlns:ns="uri"`
         Some(Attr::Unparsed {
@@ -384,9 +415,7 @@ fn find_new_xmlns<'a, 'input: 'a>(
             value: uri.into(),
         })
     } else if !ns.uri().is_empty() {
-        if let Some(popped) = namespace_map.insert(None, Some(uri)) {
-            popped_ns.push(popped);
-        }
+        popped_ns.push(namespace_map.insert(None, Some(uri)));
         // return `xmlns="uri"`
         Some(Attr::XMLNS(uri.into()))
     } else {
-- 
2.43.0


From c2bb6858f7270691a8c80d59b398abefae86aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:34 +0000
Subject: [PATCH 018/109] fix: resolve element prefixes declared by the element
 itself

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 35de31d..97ee5f3 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -261,8 +261,6 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     namespace_map: &mut NamespaceMap<'a>,
     popped_ns: &mut Vec<ReplacedNamespace<'a>>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
-    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
-
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
     #[cfg(feature = "range")]
@@ -271,6 +269,8 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
     attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    // The name may use a prefix declared by the element itself
+    let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
         #[cfg(feature = "range")]
         let range = crate::node::Ranges {
-- 
2.43.0


From 8e6e3356c1d7088732f750936eb16142ec91583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:53 +0000
Subject: [PATCH 019/109] fix: keep declarations that clear the default
 namespace

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 97ee5f3..513333f 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -418,6 +418,10 @@ fn find_new_xmlns<'a, 'input: 'a>(
         popped_ns.push(namespace_map.insert(None, Some(uri)));
         // return `xmlns="uri"`
         Some(Attr::XMLNS(uri.into()))
+    } else if namespace_map.get_by_prefix(None).is_some() {
+        popped_ns.push(namespace_map.insert(None, None));
+        // return `xmlns=""`
+        Some(Attr::XMLNS(uri.into()))
     } else {
         // no new xmlns
         None
-- 
2.43.0


From e45c32be8f7e5c56b4e8b9c7ebf5327a26a19c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:53 +0000
Subject: [PATCH 020/109] fix: keep the prefix of attributes sharing the
 default namespace

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 513333f..7090a78 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -87,6 +87,18 @@ impl<'input> NamespaceMap<'input> {
         self.uri_to_prefix.get(&uri).copied().flatten()
     }
 
+    /// The prefix an attribute can use for the uri, which can't be of the default namespace
+    fn get_attr_prefix(&self, uri: Option<&'input str>) -> Option<&'input str> {
+        uri?;
+        self.get_by_uri(uri).or_else(|| {
+            self.prefix_to_uri
+                .iter()
+                .filter(|(_, u)| **u == uri)
+                .filter_map(|(prefix, _)| *prefix)
+                .min()
+        })
+    }
+
     fn get_by_prefix(&self, prefix: Option<&'input str>) -> Option<&'input str> {
         self.prefix_to_uri.get(&prefix).copied().flatten()
     }
@@ -366,7 +378,7 @@ fn parse_attr<'a, 'input: 'a>(
     value: &'input str,
 ) -> Attr<'a> {
     let ns = attr.namespace();
-    let prefix = namespace_map.get_by_uri(ns);
+    let prefix = namespace_map.get_attr_prefix(ns);
     let ns = ns.map_or_else(
         || namespace_map.get_by_prefix(None).unwrap_or_default().into(),
         Into::into,
-- 
2.43.0


From 95c85e66f0e371d724d109c270ead0fc5ae7d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:49 +0000
Subject: [PATCH 021/109] fix: resolve prefixes by the declarations in scope

---
 crates/oxvg_ast/src/parse/roxmltree.rs | 97 ++++++++------------------
 1 file changed, 30 insertions(+), 67 deletions(-)

diff --git a/crates/oxvg_ast/src/parse/roxmltree.rs b/crates/oxvg_ast/src/parse/roxmltree.rs
index 7090a78..b182fbb 100644
--- a/crates/oxvg_ast/src/parse/roxmltree.rs
+++ b/crates/oxvg_ast/src/parse/roxmltree.rs
@@ -6,7 +6,9 @@
 //!
 //! - Default PI is skipped
 //! - Duplicate namespace uris are merged
-use std::{cell::RefCell, collections::HashMap, fmt::Display};
+#[cfg(feature = "range")]
+use std::collections::HashMap;
+use std::{cell::RefCell, fmt::Display};
 
 use lightningcss::{
     rules::CssRuleList,
@@ -37,70 +39,44 @@ pub enum ParseError {
 }
 
 #[derive(Debug, Default)]
+/// The namespace declarations in scope, with the innermost last
 struct NamespaceMap<'input> {
-    prefix_to_uri: HashMap<Option<&'input str>, Option<&'input str>>,
-    uri_to_prefix: HashMap<Option<&'input str>, Option<&'input str>>,
+    declarations: Vec<(Option<&'input str>, Option<&'input str>)>,
 }
 
-/// The entries that were replaced by a namespace declaration, to be restored
-/// when leaving the element it's declared by.
-#[derive(Debug)]
-#[allow(clippy::option_option)]
-struct ReplacedNamespace<'input> {
-    prefix: Option<&'input str>,
-    uri: Option<&'input str>,
-    old_prefix: Option<Option<&'input str>>,
-    old_uri: Option<Option<&'input str>>,
-}
-
-#[allow(clippy::ref_option)]
 impl<'input> NamespaceMap<'input> {
     fn new() -> Self {
         Self::default()
     }
 
-    fn insert(
-        &mut self,
-        prefix: Option<&'input str>,
-        uri: Option<&'input str>,
-    ) -> ReplacedNamespace<'input> {
-        ReplacedNamespace {
-            prefix,
-            uri,
-            old_prefix: self.uri_to_prefix.insert(uri, prefix),
-            old_uri: self.prefix_to_uri.insert(prefix, uri),
-        }
-    }
-
-    fn restore(&mut self, replaced: ReplacedNamespace<'input>) {
-        match replaced.old_prefix {
-            Some(prefix) => self.uri_to_prefix.insert(replaced.uri, prefix),
-            None => self.uri_to_prefix.remove(&replaced.uri),
-        };
-        match replaced.old_uri {
-            Some(uri) => self.prefix_to_uri.insert(replaced.prefix, uri),
-            None => self.prefix_to_uri.remove(&replaced.prefix),
-        };
+    fn insert(&mut self, prefix: Option<&'input str>, uri: Option<&'input str>) {
+        self.declarations.push((prefix, uri));
     }
 
+    /// The prefix an element can use for the uri, preferring the default namespace
     fn get_by_uri(&self, uri: Option<&'input str>) -> Option<&'input str> {
-        self.uri_to_prefix.get(&uri).copied().flatten()
+        if self.get_by_prefix(None) == uri {
+            return None;
+        }
+        self.get_attr_prefix(uri)
     }
 
     /// The prefix an attribute can use for the uri, which can't be of the default namespace
     fn get_attr_prefix(&self, uri: Option<&'input str>) -> Option<&'input str> {
         uri?;
-        self.get_by_uri(uri).or_else(|| {
-            self.prefix_to_uri
-                .iter()
-                .filter(|(_, u)| **u == uri)
-                .filter_map(|(prefix, _)| *prefix)
-                .min()
-        })
+        self.declarations
+            .iter()
+            .rev()
+            .filter(|(prefix, u)| *u == uri && self.get_by_prefix(*prefix) == uri)
+            .find_map(|(prefix, _)| *prefix)
     }
 
     fn get_by_prefix(&self, prefix: Option<&'input str>) -> Option<&'input str> {
-        self.prefix_to_uri.get(&prefix).copied().flatten()
+        self.declarations
+            .iter()
+            .rev()
+            .find(|(p, _)| *p == prefix)
+            .and_then(|(_, uri)| *uri)
     }
 }
 
@@ -237,15 +213,15 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         return Err(ParseError::NodesLimitReached);
     }
 
-    let mut popped_ns: Vec<ReplacedNamespace<'a>> = vec![];
+    let scope = namespace_map.declarations.len();
     let child = match node.node_type() {
         roxmltree::NodeType::Root => create_root(allocator),
         roxmltree::NodeType::PI => parse_pi(allocator, node.pi().unwrap()),
         roxmltree::NodeType::Element => {
-            let (child, style) = parse_element(allocator, node, namespace_map, &mut popped_ns);
+            let (child, style) = parse_element(allocator, node, namespace_map);
             if let Some(style) = style {
                 attach_child(child, style);
-                restore_namespaces(namespace_map, popped_ns);
+                namespace_map.declarations.truncate(scope);
                 return Ok(child);
             }
             child
@@ -254,24 +230,14 @@ fn parse_xml_node<'a, 'input: 'a, 'arena>(
         roxmltree::NodeType::Text => parse_text(allocator, node),
     };
     parse_xml_node_children(child, allocator, node, depth + 1, namespace_map)?;
-    restore_namespaces(namespace_map, popped_ns);
+    namespace_map.declarations.truncate(scope);
     Ok(child)
 }
 
-fn restore_namespaces<'a>(
-    namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: Vec<ReplacedNamespace<'a>>,
-) {
-    for replaced in popped_ns.into_iter().rev() {
-        namespace_map.restore(replaced);
-    }
-}
-
 fn parse_element<'a, 'input: 'a, 'arena>(
     arena: &mut Allocator<'a, 'arena>,
     xml_node: roxmltree::Node<'a, 'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<ReplacedNamespace<'a>>,
 ) -> (Ref<'a, 'arena>, Option<Ref<'a, 'arena>>) {
     let xml_node_namespaces = xml_node.namespaces();
     let xml_node_attributes = xml_node.attributes();
@@ -280,7 +246,7 @@ fn parse_element<'a, 'input: 'a, 'arena>(
     #[cfg(feature = "range")]
     let range = xml_node.range();
     let mut attrs = Vec::with_capacity(xml_node_attributes.len() + xml_node_namespaces.len());
-    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map, popped_ns)));
+    attrs.extend(xml_node_namespaces.filter_map(|ns| find_new_xmlns(ns, namespace_map)));
     // The name may use a prefix declared by the element itself
     let name = parse_expanded_name(xml_node.tag_name(), namespace_map);
     attrs.extend(xml_node_attributes.map(|attr| {
@@ -408,16 +374,13 @@ fn parse_expanded_name<'a, 'input: 'a>(
 fn find_new_xmlns<'a, 'input: 'a>(
     ns: &'a roxmltree::Namespace<'input>,
     namespace_map: &mut NamespaceMap<'a>,
-    popped_ns: &mut Vec<ReplacedNamespace<'a>>,
 ) -> Option<Attr<'a>> {
     if find_xml_uri(ns, namespace_map) {
         return None;
     }
     let uri = ns.uri();
     if let Some(prefix) = ns.name() {
-        if namespace_map.get_by_prefix(None) != Some(uri) {
-            popped_ns.push(namespace_map.insert(Some(prefix), Some(uri)));
-        }
+        namespace_map.insert(Some(prefix), Some(uri));
         // return `xmlns:ns="uri"`
         Some(Attr::Unparsed {
             attr_id: AttrId::Unknown(QualName {
@@ -427,11 +390,11 @@ fn find_new_xmlns<'a, 'input: 'a>(
             value: uri.into(),
         })
     } else if !ns.uri().is_empty() {
-        popped_ns.push(namespace_map.insert(None, Some(uri)));
+        namespace_map.insert(None, Some(uri));
         // return `xmlns="uri"`
         Some(Attr::XMLNS(uri.into()))
     } else if namespace_map.get_by_prefix(None).is_some() {
-        popped_ns.push(namespace_map.insert(None, None));
+        namespace_map.insert(None, None);
         // return `xmlns=""`
         Some(Attr::XMLNS(uri.into()))
     } else {
-- 
2.43.0


From 4b83cbf50fa28d0023b038a770b43c93a1e6d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:41 +0000
Subject: [PATCH 022/109] fix: keep straight curves that overshoot their ends

---
 crates/oxvg_path/src/geometry/curve.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_path/src/geometry/curve.rs b/crates/oxvg_path/src/geometry/curve.rs
index e4c6453..ba54d1e 100644
--- a/crates/oxvg_path/src/geometry/curve.rs
+++ b/crates/oxvg_path/src/geometry/curve.rs
@@ -296,6 +296,12 @@ impl Curve {
         let tolerance_scaled = tolerance.positional * chord;
         start.cross(self.end_point, self.start_control).abs() < tolerance_scaled
             && start.cross(self.end_point, self.end_control).abs() < tolerance_scaled
+            // Controls past either end can pull the curve beyond the chord
+            && [self.start_control, self.end_control].into_iter().all(|control| {
+                let d = self.end_point - start;
+                let along = (control.x - start.x) * d.x + (control.y - start.y) * d.y;
+                along > -tolerance_scaled && along < chord * chord + tolerance_scaled
+            })
     }
 
     /// Returns various bezier forms of the curve.
-- 
2.43.0


From 70e94f85089f6b33bfbaff4cae439da53be35873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:41 +0000
Subject: [PATCH 023/109] fix: don't reflect a control from the previous
 segment

---
 crates/oxvg_path/src/paths/segment/convert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index 2b97567..a9b923f 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -290,6 +290,8 @@ impl Path {
                 continue;
             };
             let is_start = command == 0;
+            // A control is only reflected within its own segment
+            let control = control.filter(|_| !is_start);
             let previous = if is_start { None } else { commands.last() };
             let implicit = previous.map(|d| d.id().next_implicit());
 
-- 
2.43.0


From 9e923a08d69f1ca1b4476d759a152613517b13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:41 +0000
Subject: [PATCH 024/109] fix: end simplification of radii smaller than the
 precision

---
 crates/oxvg_path/src/geometry/arc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_path/src/geometry/arc.rs b/crates/oxvg_path/src/geometry/arc.rs
index 169a3db..341b4c4 100644
--- a/crates/oxvg_path/src/geometry/arc.rs
+++ b/crates/oxvg_path/src/geometry/arc.rs
@@ -639,10 +639,13 @@ impl Arc {
         {
             let denom = math::euclid_gcd_lossy(radii.x, radii.y, tolerance, precision);
             let mut simple = radii / denom;
-            while (simple - limit).quadrant() == Quadrant::A {
-                simple /= 2.0;
+            // Radii under the precision have no common denominator
+            if simple.is_finite() {
+                while simple != Point::ZERO && (simple - limit).quadrant() == Quadrant::A {
+                    simple /= 2.0;
+                }
+                radii = simple;
             }
-            radii = simple;
         }
         [
             radii.x,
-- 
2.43.0


From a7baab74fa6b47ff3b4f0270824e2ae6aa5cbce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 025/109] fix: match every selector of a list when computing
 styles

---
 crates/oxvg_ast/src/style.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 24510c5..881122a 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -299,10 +299,9 @@ impl<'input> ComputedStyles<'input> {
                             selector: r.selectors.clone(),
                         }
                     })?;
-                    if !select.matches_naive(&SelectElement::new(element)) {
-                        continue;
+                    if select.matches_naive(&SelectElement::new(element)) {
+                        self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     }
-                    self.add_declarations(&r.declarations, specificity + s.specificity(), mode);
                     selector.pop();
                 }
                 Ok(())
-- 
2.43.0


From 4ea8fda892c893935ecc05d2e952df265553c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 026/109] fix: use the last inline declaration of a property

---
 crates/oxvg_ast/src/style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 881122a..4cd9a6a 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -435,7 +435,7 @@ impl<'input> ComputedStyles<'input> {
                 inline
                     .important_declarations
                     .iter()
-                    .find(|css| css.property_id() == *id)
+                    .rfind(|css| css.property_id() == *id)
                     .cloned()
                     .map(|css| (css, Mode::Static))
             })
@@ -456,7 +456,7 @@ impl<'input> ComputedStyles<'input> {
                     inline
                         .declarations
                         .iter()
-                        .find(|css| css.property_id() == *id)
+                        .rfind(|css| css.property_id() == *id)
                         .cloned()
                         .map(|css| (css, Mode::Static))
                 })
-- 
2.43.0


From d4d40a68b429994627b38cdb22fe4233abf45ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 027/109] fix: respect specificity when computing styles

---
 crates/oxvg_ast/src/style.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index 4cd9a6a..cb34eb8 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -512,6 +512,12 @@ impl<'input> ComputedStyles<'input> {
     ) {
         for d in declarations {
             let id = d.property_id();
+            if record
+                .get(&id)
+                .is_some_and(|(existing, _)| *existing > specificity)
+            {
+                continue;
+            }
             record.insert(id, (specificity, mode.style(Static::Css(d.clone()))));
         }
     }
-- 
2.43.0


From a1fba76f28f9837b785dc6e1ea8203393d731593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 028/109] fix: resolve explicitly inherited values, and rank
 sheets over attributes when inheriting

---
 crates/oxvg_ast/src/style.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_ast/src/style.rs b/crates/oxvg_ast/src/style.rs
index cb34eb8..bca4ca0 100644
--- a/crates/oxvg_ast/src/style.rs
+++ b/crates/oxvg_ast/src/style.rs
@@ -14,7 +14,8 @@ use lightningcss::{
 };
 #[cfg(feature = "selectors")]
 use oxvg_collections::{
-    attribute::{Attr, AttrId, AttributeGroup, AttributeInfo},
+    attribute::{Attr, AttrId, AttributeGroup, AttributeInfo, inheritable::Inheritable},
+    content_type::ContentType,
     name::Prefix,
 };
 #[cfg(feature = "selectors")]
@@ -213,19 +214,22 @@ impl<'input> ComputedStyles<'input> {
         }
         let parent_styles = ComputedStyles::default().with_all(parent, styles)?;
         self.inherited.extend(parent_styles.inherited);
+        self.inherited
+            .extend(parent_styles.attr.into_iter().filter_map(|attr| {
+                if is_inherited(&attr) {
+                    return None;
+                }
+                Some((
+                    attr.name().to_string(),
+                    Style::Static(Static::Attr(attr.clone())),
+                ))
+            }));
         self.inherited.extend(
             parent_styles
                 .declarations
                 .into_iter()
                 .map(|(id, value)| (id.name().to_string(), value.1)),
         );
-        self.inherited
-            .extend(parent_styles.attr.into_iter().map(|attr| {
-                (
-                    attr.name().to_string(),
-                    Style::Static(Static::Attr(attr.clone())),
-                )
-            }));
         let (inline, important_inline) = parent_styles
             .inline
             .map(|style| (style.declarations, style.important_declarations))
@@ -468,6 +472,10 @@ impl<'input> ComputedStyles<'input> {
         self.attr
             .iter()
             .find(|attr| attr.name() == id)
+            .filter(|attr| {
+                // An explicitly inherited value is the inherited value
+                !is_inherited(attr) || !id.info().contains(AttributeInfo::Inheritable)
+            })
             .cloned()
             .map(|attr| (attr, Mode::Static))
     }
@@ -523,6 +531,14 @@ impl<'input> ComputedStyles<'input> {
     }
 }
 
+#[cfg(feature = "selectors")]
+fn is_inherited(attr: &Attr) -> bool {
+    matches!(
+        attr.value(),
+        ContentType::Inheritable(Inheritable::Inherited)
+    )
+}
+
 #[cfg(feature = "selectors")]
 impl Mode {
     /// # Panics
-- 
2.43.0


From f0f9a0a64f2447ee4d84b752fc2db0b2838b6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 029/109] fix: keep translations by one

---
 crates/oxvg_collections/src/attribute/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute/transform.rs b/crates/oxvg_collections/src/attribute/transform.rs
index d755130..a88c1bf 100644
--- a/crates/oxvg_collections/src/attribute/transform.rs
+++ b/crates/oxvg_collections/src/attribute/transform.rs
@@ -236,7 +236,8 @@ impl SVGTransform {
     fn is_identity(&self) -> bool {
         match self {
             Self::Rotate(n, _, _) | Self::SkewX(n) | Self::SkewY(n) => *n == 0.0,
-            Self::Scale(x, y) | Self::Translate(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Scale(x, y) => *x == 1.0 && *y == 1.0,
+            Self::Translate(x, y) => *x == 0.0 && *y == 0.0,
             Self::Matrix(_) | Self::CssTransform(_) => false,
         }
     }
-- 
2.43.0


From 4a635d06c993965784c7c01b4ec0c59e41b05fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 030/109] fix: flip arcs by the determinant of the applied
 transform

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index abd0260..8c044b6 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -423,7 +423,7 @@ fn transform_arc(cursor: [f64; 2], args: &mut [f64; 7], matrix: &[f64; 6]) {
             / std::f64::consts::PI;
     }
 
-    if (matrix[0] < 0.0) != (matrix[3] < 0.0) {
+    if matrix[0] * matrix[3] - matrix[1] * matrix[2] < 0.0 {
         args[4] = 1.0 - args[4];
     }
 }
-- 
2.43.0


From 500e54a5f5a4a7ea861b7767267e34fa3fae2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 031/109] fix: don't apply transforms to paths with strokes or
 paint set elsewhere

---
 .../src/jobs/apply_transforms.rs              | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 8c044b6..0437b47 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -8,7 +8,7 @@ use lightningcss::properties::{
 use oxvg_ast::{
     element::Element,
     get_attribute, get_attribute_mut, get_computed_style, get_computed_style_css, has_attribute,
-    is_attribute,
+    has_computed_style, is_attribute,
     style::{ComputedStyle, ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
 };
@@ -134,7 +134,29 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             return Ok(());
         }
 
+        let stylesheet = ComputedStyles::default()
+            .with_style(element, &context.query_has_stylesheet_result)
+            .map_err(JobsError::ComputedStylesError)?;
+        let fill = get_computed_style!(computed_styles, Fill);
         let stroke = get_computed_style!(computed_styles, Stroke);
+        if [&fill, &stroke].into_iter().any(|paint| {
+            matches!(
+                paint,
+                ComputedStyle::Some((
+                    Inheritable::Defined(SVGPaint::Url { .. }) | Inheritable::Inherited,
+                    _
+                )) | ComputedStyle::Unparsed
+            )
+        }) {
+            log::debug!("run: inherited paint depends on the element's coordinates");
+            return Ok(());
+        }
+        if std::iter::successors(element.parent_element(), Element::parent_element)
+            .any(|parent| has_attribute!(parent, Id) && !parent.is_root())
+        {
+            log::debug!("run: element may inherit paint where it's used");
+            return Ok(());
+        }
         if matches!(
             stroke,
             ComputedStyle::Some((_, Mode::Dynamic)) | ComputedStyle::Unparsed
@@ -166,7 +188,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
 
         drop(transform_attr);
         if let Some((Inheritable::Defined(stroke), Mode::Static)) = stroke.option()
-            && self.apply_stroked(&matrix, &stroke, stroke_width, element)
+            && self.apply_stroked(
+                &matrix,
+                &stroke,
+                stroke_width,
+                &computed_styles,
+                &stylesheet,
+                element,
+            )
         {
             return Ok(());
         }
@@ -190,6 +219,8 @@ impl ApplyTransforms {
         matrix: &[f64; 6],
         stroke: &SVGPaint,
         stroke_width: Option<Inheritable<LengthPercentage>>,
+        computed_styles: &ComputedStyles,
+        stylesheet: &ComputedStyles,
         element: Element,
     ) -> bool {
         if matches!(stroke, SVGPaint::None) {
@@ -219,6 +250,18 @@ impl ApplyTransforms {
         if scale == 1.0 {
             return false;
         }
+        if (has_computed_style!(computed_styles, StrokeDasharray)
+            && !has_attribute!(element, StrokeDasharray))
+            || (has_computed_style!(computed_styles, StrokeDashoffset)
+                && !has_attribute!(element, StrokeDashoffset))
+            || has_computed_style!(
+                stylesheet,
+                StrokeWidth | StrokeDasharray | StrokeDashoffset
+            )
+        {
+            log::debug!("apply_stroked: cannot scale stroke set elsewhere");
+            return true;
+        }
         let scale = scale as f32;
 
         let stroke_width = match stroke_width {
-- 
2.43.0


From 6d10c3e1deb4316e6371f95174a83d7d811b5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 032/109] fix: don't collapse groups when it changes how the
 child is styled

---
 .../src/jobs/collapse_groups.rs               | 131 +++++++++++++++++-
 1 file changed, 125 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
index 4726c2d..02a707a 100644
--- a/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
+++ b/crates/oxvg_optimiser/src/jobs/collapse_groups.rs
@@ -1,6 +1,11 @@
 use std::mem;
 
-use lightningcss::{properties::PropertyId, vendor_prefix::VendorPrefix};
+use lightningcss::{
+    properties::PropertyId,
+    rules::{CssRule, CssRuleList},
+    selector::Component,
+    vendor_prefix::VendorPrefix,
+};
 use oxvg_ast::{
     element::Element,
     get_attribute, has_attribute, is_element,
@@ -8,7 +13,7 @@ use oxvg_ast::{
 };
 use oxvg_collections::{
     atom::Atom,
-    attribute::{Attr, inheritable::Inheritable},
+    attribute::{Attr, AttrId, AttributeGroup, AttributeInfo, inheritable::Inheritable},
     content_type::ContentType,
     element::ElementCategory,
 };
@@ -45,9 +50,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
 
     fn prepare(
         &self,
-        _document: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
         Ok(if self.0 {
             PrepareOutcome::none
         } else {
@@ -58,7 +64,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
     fn exit_element(
         &self,
         element: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         let Some(parent) = Element::parent_element(&element) else {
             return Ok(());
@@ -71,6 +77,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for CollapseGroups {
             return Ok(());
         }
 
+        if context
+            .query_has_stylesheet_result
+            .iter()
+            .any(|style| is_id_selected(element, &style.borrow()))
+        {
+            log::debug!("collapse_groups: not moving attrs: id is styled");
+            return Ok(());
+        }
+
         move_attributes_to_child(element);
         flatten_when_all_attributes_moved(element);
         Ok(())
@@ -111,16 +126,43 @@ fn move_attributes_to_child(element: Element) {
     } else if is_node_with_filter(element) {
         log::debug!("collapse_groups: not moving attrs: filter");
         return;
+    } else if first_child
+        .qual_name()
+        .categories()
+        .contains(ElementCategory::NeverRendered)
+    {
+        log::debug!("collapse_groups: not moving attrs: child isn't drawn in group");
+        return;
+    }
+
+    if is_child_inheriting(first_child) || is_inheriting(first_child) || is_inheriting(element) {
+        log::debug!("collapse_groups: not moving attrs: explicitly inherited");
+        return;
     }
 
+    let is_style_fixed =
+        is_child_style_overridden(element, first_child) || is_own_style_overridden(element);
     let mut removals = Vec::default();
     let first_child_attrs = first_child.attributes();
     for mut attr in attrs.into_iter_mut() {
         let name = attr.name().clone();
+        if is_style_fixed
+            && (matches!(name, AttrId::Class | AttrId::Style)
+                || name
+                    .attribute_group()
+                    .contains(AttributeGroup::Presentation))
+        {
+            log::debug!("collapse_groups: keeping {attr:?}: overrides style of child");
+            break;
+        }
+        if is_combined_with_child(&name, first_child) {
+            log::debug!("collapse_groups: keeping {attr:?}: combines with the child's");
+            break;
+        }
         let child_attr = first_child_attrs.get_named_item_mut(&name);
         if has_animated_attr(first_child, name.local_name()) {
             log::debug!("collapse_groups: canelled moves: has animated_attr");
-            return;
+            break;
         }
 
         removals.push(name);
@@ -172,6 +214,11 @@ fn flatten_when_all_attributes_moved(element: Element) {
         }
     }
 
+    if is_child_inheriting(element) {
+        log::debug!("skipping flatten: has child inheriting from group");
+        return;
+    }
+
     element.flatten();
 }
 
@@ -189,6 +236,22 @@ fn has_animated_attr<'input>(element: Element<'input, '_>, local_name: &Atom<'in
     false
 }
 
+fn is_id_selected(element: Element, rules: &CssRuleList) -> bool {
+    let Some(id) = get_attribute!(element, Id) else {
+        return false;
+    };
+    rules.0.iter().any(|rule| match rule {
+        CssRule::Style(style) => style.selectors.0.iter().any(|selector| {
+            selector
+                .iter_raw_match_order()
+                .any(|component| matches!(component, Component::ID(ident) if *ident.0 == *id.0))
+        }),
+        CssRule::Media(media) => is_id_selected(element, &media.rules),
+        CssRule::Supports(supports) => is_id_selected(element, &supports.rules),
+        _ => false,
+    })
+}
+
 fn is_group_identifiable<'input, 'arena>(
     node: Element<'input, 'arena>,
     child: Element<'input, 'arena>,
@@ -205,6 +268,62 @@ fn is_position_visually_unstable<'input, 'arena>(
     is_node_clipping || is_child_transformed_group
 }
 
+/// Moving a group's style or class to the child gives it precedence over the child's attributes.
+fn is_child_style_overridden<'input, 'arena>(
+    node: Element<'input, 'arena>,
+    child: Element<'input, 'arena>,
+) -> bool {
+    has_attribute!(node, Class | Style)
+        && (has_attribute!(child, Class | Style)
+            || child.attributes().into_iter().any(|attr| {
+                attr.name()
+                    .attribute_group()
+                    .contains(AttributeGroup::Presentation)
+            }))
+}
+
+/// Children may explicitly inherit properties that apply to the group itself.
+fn is_child_inheriting(element: Element) -> bool {
+    element.children_iter().any(is_inheriting)
+}
+
+fn is_inheriting(element: Element) -> bool {
+    element.attributes().into_iter().any(|attr| {
+        !attr.name().info().contains(AttributeInfo::Inheritable)
+            && matches!(
+                attr.value(),
+                ContentType::Inheritable(Inheritable::Inherited)
+            )
+    })
+}
+
+/// A group's style or class must stay with the attributes it takes precedence over.
+fn is_own_style_overridden(node: Element) -> bool {
+    has_attribute!(node, Class | Style)
+        && node.attributes().into_iter().any(|attr| {
+            let name = attr.name();
+            name.attribute_group()
+                .contains(AttributeGroup::Presentation)
+                && !name.info().contains(AttributeInfo::Inheritable)
+                && (!matches!(name, AttrId::Transform) || is_combined_with_child(name, node))
+        })
+}
+
+/// Non-inheritable properties apply to both the group and the child, only transforms can be merged.
+fn is_combined_with_child(name: &AttrId, child: Element) -> bool {
+    if matches!(name, AttrId::Transform) {
+        return get_attribute!(child, Style).is_some_and(|style| {
+            style
+                .get(&PropertyId::Transform(VendorPrefix::None))
+                .is_some()
+        });
+    }
+    name.attribute_group()
+        .contains(AttributeGroup::Presentation)
+        && !name.info().contains(AttributeInfo::Inheritable)
+        && (child.has_attribute(name) || has_attribute!(child, Class | Style))
+}
+
 fn is_node_with_filter(node: Element) -> bool {
     has_attribute!(node, Filter)
         || get_attribute!(node, Style)
-- 
2.43.0


From c5a120a0a15c77c73e2df7c4908051616903c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 033/109] fix: keep ellipses with percentage radii

---
 .../oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
index b77ad6c..70045c2 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs
@@ -1,3 +1,4 @@
+use lightningcss::values::percentage::DimensionPercentage;
 use oxvg_ast::{
     element::Element,
     get_attribute, is_element, remove_attribute, set_attribute,
@@ -81,6 +82,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertEllipseToCircle {
             },
         }
         .cloned();
+        if radius
+            .as_ref()
+            .is_some_and(|radius| !matches!(radius.0, DimensionPercentage::Dimension(_)))
+        {
+            // Percentages are relative to different sizes for circles
+            return Ok(());
+        }
         log::debug!("derived {radius:?} from {rx:?}, {ry:?}");
 
         drop(rx);
-- 
2.43.0


From 892a67124b473c4cfc8c26ef84af6f0e65ed8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 034/109] fix: keep caps and closings of paths that may be
 stroked where they're used

---
 crates/oxvg_optimiser/src/jobs/convert_path_data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_path_data.rs b/crates/oxvg_optimiser/src/jobs/convert_path_data.rs
index b5656a6..895ee84 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_path_data.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_path_data.rs
@@ -122,7 +122,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertPathData {
         let computed_styles = ComputedStyles::default()
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
-        let (_, options) = gather_optimize_options(&computed_styles);
+        let (_, mut options) = gather_optimize_options(&computed_styles);
+        if std::iter::successors(Some(element), Element::parent_element)
+            .any(|element| has_attribute!(element, Id) && !element.is_root())
+        {
+            // The element may inherit a stroke from where it's used
+            options -= optimize::Options::UnsafeStroke | optimize::Options::UnsafeStrokeLinecap;
+        }
         let options = options & self.into();
         log::debug!("ConvertPathData::run: gained style info {options:?}");
 
-- 
2.43.0


From 2bf2e775eda97f9f2fd6ff132645df9c829fc389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 035/109] fix: don't convert rects without a size to paths

---
 crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index f78f6ea..4c1abce 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -236,6 +236,10 @@ impl ConvertShapeToPath {
         let Some(height) = get_attribute!(element, HeightRect).and_then(lp_px) else {
             return;
         };
+        if width <= 0.0 || height <= 0.0 {
+            // Rendering is disabled for the rect, but wouldn't be for the path
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([x, y]),
-- 
2.43.0


From 849e8f20c5b7c65107bfd9199bfe6b977f59ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 036/109] fix: keep precision of mixed transforms and identity
 transforms overriding a referenced paint

---
 .../src/jobs/convert_transform.rs             | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index 344ee73..c344e04 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -3,7 +3,7 @@ use std::cell::RefMut;
 use lightningcss::properties::transform::Matrix;
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut,
+    get_attribute_mut, has_attribute,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{
@@ -101,13 +101,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertTransform {
         if let Some(transform) =
             get_attribute_mut!(element, Transform).and_then(inheritable::map_ref_mut)
         {
-            self.transform_attr(transform, &AttrId::Transform, element);
+            self.transform_attr(transform, &AttrId::Transform, false, element);
         }
+        let has_href = has_attribute!(element, Href | XLinkHref);
         if let Some(gradient_transform) = get_attribute_mut!(element, GradientTransform) {
-            self.transform_attr(gradient_transform, &AttrId::GradientTransform, element);
+            self.transform_attr(gradient_transform, &AttrId::GradientTransform, has_href, element);
         }
         if let Some(pattern_transform) = get_attribute_mut!(element, PatternTransform) {
-            self.transform_attr(pattern_transform, &AttrId::PatternTransform, element);
+            self.transform_attr(pattern_transform, &AttrId::PatternTransform, has_href, element);
         }
 
         Ok(())
@@ -153,6 +154,14 @@ impl ConvertTransform {
                 number_of_decimals = arg_decimal_digits;
             }
         }
+        if data
+            .0
+            .iter()
+            .any(|t| !matches!(t, SVGTransform::Matrix(_)))
+        {
+            // The precision of the matrix says nothing of the other transforms
+            is_matrix_data = false;
+        }
         if is_matrix_data && number_of_decimals < transform_precision {
             transform_precision = number_of_decimals;
         }
@@ -172,11 +181,16 @@ impl ConvertTransform {
         &self,
         mut transform: RefMut<SVGTransformList>,
         name: &AttrId,
+        is_template_overridden: bool,
         element: Element,
     ) {
         log::debug!("transform_attr: found {name} to transform");
 
         self.transform(&mut transform);
+        if transform.0.is_empty() && is_template_overridden {
+            log::debug!("transform_attr: keeping {name}, overrides the template");
+            transform.0.push(SVGTransform::Translate(0.0, 0.0));
+        }
         if transform.0.is_empty() {
             log::debug!("transform_attr: removing {name}");
             drop(transform);
-- 
2.43.0


From 7d1c25641a4464a307fc22e922aa688a32a23efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 037/109] fix: don't inline styles outranked by the remaining
 stylesheet

---
 .../oxvg_optimiser/src/jobs/inline_styles.rs  | 155 +++++++++++++++---
 1 file changed, 134 insertions(+), 21 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/inline_styles.rs b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
index e41f6da..edad31c 100644
--- a/crates/oxvg_optimiser/src/jobs/inline_styles.rs
+++ b/crates/oxvg_optimiser/src/jobs/inline_styles.rs
@@ -5,7 +5,7 @@ use lightningcss::{
     declaration::DeclarationBlock,
     error::PrinterError,
     printer::{Printer, PrinterOptions},
-    properties::Property,
+    properties::{Property, PropertyId},
     rules::{CssRule, CssRuleList},
     selector::{Component, Selector},
     traits::ToCss,
@@ -112,6 +112,25 @@ struct FindDynamicTokens<'a, 'o, 'input, 'arena> {
 struct CollectMatchingSelectors<'a, 'o, 'input, 'arena> {
     find_removable_tokens: &'a mut FindRemovableTokens<'o, 'input, 'arena>,
     root: Element<'input, 'arena>,
+    /// The selectors of the stylesheet in order of appearance.
+    candidates: Vec<Candidate<'input, 'arena>>,
+}
+
+/// A selector found in the stylesheet
+struct Candidate<'input, 'arena> {
+    matches: Vec<Element<'input, 'arena>>,
+    /// The tokens the selector refers to elements with.
+    references: Vec<Token<'input>>,
+    /// The tokens of the selector, when it can be inlined to the matching elements.
+    tokens: Option<Vec<Token<'input>>>,
+    specificity: u32,
+    declarations: DeclarationBlock<'input>,
+}
+
+/// Takes the selectors that can be inlined from the stylesheet
+struct TakeMatchingSelectors<'a, 'o, 'input, 'arena> {
+    find_removable_tokens: &'a mut FindRemovableTokens<'o, 'input, 'arena>,
+    candidates: std::vec::IntoIter<Candidate<'input, 'arena>>,
 }
 
 struct InlinePresentationAttributes<'a, 'o, 'input, 'arena> {
@@ -388,17 +407,68 @@ impl<'o, 'input, 'arena> FindRemovableTokens<'o, 'input, 'arena> {
     ) -> Result<(), anyhow::Error> {
         // First pass to find dynamic tokens, which will skip inlining.
         stylesheet.visit(self)?;
-        // Second pass will take matching selectors from the stylesheet
+        // Second pass will find matching selectors in the stylesheet
         let mut collect_matching_selectors = CollectMatchingSelectors {
             find_removable_tokens: self,
             root,
+            candidates: Vec::new(),
         };
         stylesheet.visit(&mut collect_matching_selectors)?;
+        let mut candidates = collect_matching_selectors.candidates;
+        Candidate::keep_outranked(&mut candidates);
+        self.dynamically_referenced.extend(
+            candidates
+                .iter()
+                .filter(|candidate| candidate.tokens.is_none() && !candidate.matches.is_empty())
+                .flat_map(|candidate| candidate.references.iter().cloned()),
+        );
+        // Third pass will take matching selectors from the stylesheet
+        stylesheet.visit(&mut TakeMatchingSelectors {
+            find_removable_tokens: self,
+            candidates: candidates.into_iter(),
+        })?;
 
         Ok(())
     }
 }
 
+impl<'input> Candidate<'input, '_> {
+    /// An inlined style outranks the stylesheet, so keep the ones that are outranked by a selector
+    /// staying in the stylesheet.
+    fn keep_outranked(candidates: &mut [Self]) {
+        let mut order: Vec<_> = (0..candidates.len()).collect();
+        order.sort_by_key(|i| std::cmp::Reverse((candidates[*i].specificity, *i)));
+        for (rank, i) in order.iter().enumerate() {
+            let is_outranked = order[..rank]
+                .iter()
+                .map(|j| &candidates[*j])
+                .any(|other| other.tokens.is_none() && other.is_overriding(&candidates[*i]));
+            if is_outranked {
+                log::debug!("retained selector: outranked by retained selector");
+                candidates[*i].tokens = None;
+            }
+        }
+    }
+
+    fn is_overriding(&self, other: &Self) -> bool {
+        self.matches.iter().any(|e| other.matches.contains(e))
+            && self.properties().any(|a| {
+                other.properties().any(|b| {
+                    let (a, b) = (a.name(), b.name());
+                    a.starts_with(b) || b.starts_with(a)
+                })
+            })
+    }
+
+    fn properties(&self) -> impl Iterator<Item = PropertyId<'input>> + '_ {
+        self.declarations
+            .declarations
+            .iter()
+            .chain(&self.declarations.important_declarations)
+            .map(Property::property_id)
+    }
+}
+
 impl<'input, 'arena> CollectMatchingSelectors<'_, '_, 'input, 'arena> {
     fn strip_allowed_pseudos(&self, selector: String) -> String {
         let mut new_selector = None;
@@ -521,7 +591,31 @@ impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'inpu
         }
         let declarations = &style.declarations;
 
-        style.selectors.0.retain(|selector| {
+        for selector in &mut style.selectors.0 {
+            let specificity = selector.specificity();
+            let mut candidate = Candidate {
+                matches: Vec::new(),
+                references: selector.iter_raw_match_order().map(Token::from).collect(),
+                tokens: None,
+                specificity,
+                declarations: declarations.clone(),
+            };
+            let Ok(selector_string) = selector.to_css_string(PrinterOptions {
+                minify: true,
+                ..PrinterOptions::default()
+            }) else {
+                self.candidates.push(candidate);
+                continue;
+            };
+            let selector_string = self.strip_allowed_pseudos(selector_string);
+            if let Ok(matches) = self.root.select(&selector_string) {
+                candidate.matches = matches.collect();
+            } else {
+                log::debug!("retained selector: no matches");
+                self.candidates.push(candidate);
+                continue;
+            }
+
             let selector_iter = &mut selector.iter();
             let tail: Vec<_> = selector_iter.map(Token::from).collect();
             if tail.iter().any(|token| {
@@ -538,28 +632,47 @@ impl<'input> visitor::Visitor<'input> for CollectMatchingSelectors<'_, '_, 'inpu
                         .extend(selector_iter.map(Token::from));
                 }
                 log::debug!("retained selector: dynamic reference used");
-                return true;
+            } else {
+                candidate.tokens = self.is_selector_removable(selector, &candidate.matches);
             }
-            let Ok(selector_string) = selector.to_css_string(PrinterOptions {
-                minify: true,
-                ..PrinterOptions::default()
-            }) else {
-                return true;
-            };
-            let selector_string = self.strip_allowed_pseudos(selector_string);
-            let Ok(matches) = self.root.select(&selector_string) else {
-                log::debug!("retained selector: no matches");
-                return true;
-            };
-            let matches: Vec<_> = matches.collect();
-            let Some(matching_tokens) = self.is_selector_removable(selector, &matches) else {
+            self.candidates.push(candidate);
+        }
+        Ok(())
+    }
+}
+
+impl<'input> visitor::Visitor<'input> for TakeMatchingSelectors<'_, '_, 'input, '_> {
+    type Error = PrinterError;
+
+    fn visit_types(&self) -> VisitTypes {
+        visit_types!(RULES)
+    }
+
+    fn visit_rule(&mut self, rule: &mut CssRule<'input>) -> Result<(), Self::Error> {
+        let CssRule::Style(style) = rule else {
+            return rule.visit_children(self);
+        };
+
+        if !style.rules.0.is_empty() {
+            return Ok(());
+        }
+
+        style.selectors.0.retain(|_| {
+            let Some(Candidate {
+                matches,
+                tokens: Some(tokens),
+                specificity,
+                declarations,
+                ..
+            }) = self.candidates.next()
+            else {
                 return true;
             };
-            for m in matches {
+            for element in matches {
                 self.find_removable_tokens.inlines.push(RemovedToken {
-                    element: m,
-                    tokens: matching_tokens.clone(),
-                    specificity: selector.specificity(),
+                    element,
+                    tokens: tokens.clone(),
+                    specificity,
                     declarations: declarations.clone(),
                 });
             }
-- 
2.43.0


From 6b3e25ed317a555e3eaafcef295f034e9d2e731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 038/109] fix: don't merge paths that may inherit a paint
 server

---
 crates/oxvg_optimiser/src/jobs/merge_paths.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/merge_paths.rs b/crates/oxvg_optimiser/src/jobs/merge_paths.rs
index ebfca3d..172151f 100644
--- a/crates/oxvg_optimiser/src/jobs/merge_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/merge_paths.rs
@@ -80,6 +80,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MergePaths {
         if children.peek_nth(1).is_none() {
             return Ok(());
         }
+        if std::iter::successors(Some(element), Element::parent_element)
+            .any(|element| has_attribute!(element, Id) && !element.is_root())
+        {
+            log::debug!("not merging, paths may inherit paint where they're used");
+            return Ok(());
+        }
 
         let mut prev_path_data: Option<path::Path> = None;
 
@@ -139,7 +145,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MergePaths {
                 )
                 || has_computed_style_css!(computed_styles, MaskImage(None))
                 || get_computed_style!(computed_styles, Fill).option().is_some_and(|(fill, mode)| {
-                    matches!(mode, Mode::Static)
+                    matches!(fill, Inheritable::Inherited) || matches!(mode, Mode::Static)
                         && matches!(fill.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
                 })
                 || get_computed_style!(computed_styles, Filter).option().is_some_and(|(filter, mode)| {
@@ -147,7 +153,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MergePaths {
                         && matches!(filter, Inheritable::Defined(FilterList::Filters(filters)) if filters.iter().any(|filter| matches!(filter, Filter::Url(url) if url.url.starts_with('#'))))
                 })
                 || get_computed_style!(computed_styles, Stroke).option().is_some_and(|(stroke, mode)| {
-                    matches!(mode, Mode::Static) && matches!(stroke.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
+                    matches!(stroke, Inheritable::Inherited) || matches!(mode, Mode::Static) && matches!(stroke.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
                 })
             {
                 log::debug!("ending merge, has forbidden style or reference");
-- 
2.43.0


From 2154d5a4f5795d11ef98ff83a735eacc0b11a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 039/109] fix: respect the group's own style when moving
 attributes to it

---
 .../src/jobs/move_elems_attrs_to_group.rs     | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 58a7668..20a159e 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -2,12 +2,15 @@ use std::collections::BTreeMap;
 
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, has_attribute, is_attribute, is_element,
+    get_attribute, get_attribute_mut, has_attribute, is_attribute, is_element,
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{
-    Attr, AttrId, AttributeInfo,
-    inheritable::{self, Inheritable},
+use oxvg_collections::{
+    attribute::{
+        Attr, AttrId, AttributeInfo,
+        inheritable::{self, Inheritable},
+    },
+    content_type::ContentType,
 };
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -84,6 +87,24 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
         {
             common_attributes.remove(&AttrId::Transform);
         }
+        // An inherited value would be taken from the group's parent instead of the group
+        common_attributes.retain(|name, value| {
+            !matches!(
+                value.value(),
+                ContentType::Inheritable(Inheritable::Inherited)
+            ) || !element.has_attribute(name)
+        });
+        if let Some(style) = get_attribute!(element, Style) {
+            // The group's style would outrank the moved attributes
+            common_attributes.remove(&AttrId::Transform);
+            common_attributes.retain(|name, _| {
+                !style
+                    .declarations
+                    .iter()
+                    .chain(style.important_declarations.iter())
+                    .any(|property| property.property_id().name() == name.local_name().as_str())
+            });
+        }
 
         for name in common_attributes.keys() {
             for child in element.children_iter() {
-- 
2.43.0


From 8f88c6ad9d570ff88961a2bcc10f4a01ae310617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:47 +0000
Subject: [PATCH 040/109] fix: only remove hidden elements that nothing visible
 depends on

---
 .../src/jobs/remove_hidden_elems.rs           | 44 +++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 36eea70..4d43e7e 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -19,7 +19,7 @@ use oxvg_collections::{
         Attr, core_attrs::NonWhitespace, inheritable::Inheritable, presentation::LengthPercentage,
         uncategorised::Radius,
     },
-    element::{ElementId, ElementInfo},
+    element::{ElementCategory, ElementId, ElementInfo},
 };
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -164,6 +164,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Data<'input, 'arena> {
 
 impl<'input, 'arena> Data<'input, 'arena> {
     fn remove_element(&self, element: Element<'input, 'arena>) {
+        if element.is_root() {
+            log::debug!("data: not removing root");
+            return;
+        }
         if let Some(parent) = Element::parent_element(&element)
             && is_element!(parent, Defs)
         {
@@ -336,19 +340,42 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
     fn is_hidden_style(
         &self,
-        element: Element,
+        element: Element<'input, 'arena>,
         computed_styles: &ComputedStyles,
-        context: &mut Context,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> bool {
+        if !element
+            .qual_name()
+            .categories()
+            .contains(ElementCategory::Renderable)
+        {
+            // Not rendered directly, but removing it affects the elements referencing it
+            return false;
+        }
         let mut is_hidden = false;
         if self.options.is_hidden.unwrap_or(true)
             && let Some((Inheritable::Defined(Visibility::Hidden), Mode::Static)) =
                 get_computed_style!(computed_styles, Visibility).option()
+            && !is_element!(element, Use)
+            && !std::iter::successors(element.parent_element(), Element::parent_element)
+                .any(|parent| has_attribute!(parent, Id) && !parent.is_root())
             && !element.breadth_first().any(|child| {
-                matches!(
+                is_element!(child, Use | Style)
+                    || child
+                        .qual_name()
+                        .info()
+                        .contains(ElementInfo::NonRendering)
+                    || matches!(
                     get_attribute!(child, Visibility).as_deref(),
                     Some(Inheritable::Defined(Visibility::Visible) | Inheritable::Inherited)
-                )
+                ) || ComputedStyles::default()
+                    .with_all(child, &context.query_has_stylesheet_result)
+                    .is_ok_and(|styles| {
+                        !matches!(
+                            get_computed_style!(styles, Visibility).option(),
+                            Some((Inheritable::Defined(Visibility::Hidden), Mode::Static))
+                        )
+                    })
             })
         {
             is_hidden = true;
@@ -356,8 +383,10 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
 
         if !is_hidden
             && self.options.display_none.unwrap_or(true)
-            && let Some((Inheritable::Defined(Display::Keyword(DisplayKeyword::None)), _)) =
-                get_computed_style!(computed_styles, Display).option()
+            && let Some((
+                Inheritable::Defined(Display::Keyword(DisplayKeyword::None)),
+                Mode::Static,
+            )) = get_computed_style!(computed_styles, Display).option()
         {
             is_hidden = !is_element!(element, Marker);
         }
@@ -391,7 +420,6 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             && length.to_px() == Some(0.0)
         {
             log::debug!("RemoveHiddenElement: removing hidden ellipse");
-            element.remove();
             return true;
         }
 
-- 
2.43.0


From c2fdba9a157cfd9d8831bdbdb352d2f212e54620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:48 +0000
Subject: [PATCH 041/109] fix: keep defaults of elements within a referenced
 group

---
 .../oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs b/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
index 69acef1..c142296 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_unknowns_and_defaults.rs
@@ -198,7 +198,10 @@ impl RemoveUnknownsAndDefaults {
         inherited_styles: &ComputedStyles<'input>,
     ) {
         let element_name = element.qual_name();
-        let has_id = has_attribute!(element, Id);
+        // The element may be used elsewhere, and inherit different values from there
+        let has_id = has_attribute!(element, Id)
+            || std::iter::successors(element.parent_element(), Element::parent_element)
+                .any(|parent| has_attribute!(parent, Id) && !parent.is_root());
 
         element.attributes().retain(|attr| {
             let name = attr.name().unaliased();
-- 
2.43.0


From 6ae9958c0473629299d829c1907034a30473bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:48 +0000
Subject: [PATCH 042/109] fix: keep stroke and fill in use by styles and
 markers

---
 .../jobs/remove_useless_stroke_and_fill.rs    | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index ee89cce..b9f9e9b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -3,7 +3,7 @@ use std::cell::Cell;
 use lightningcss::{properties::svg::SVGPaint, traits::Zero, values::alpha::AlphaValue};
 use oxvg_ast::{
     element::Element,
-    get_computed_style, has_computed_style, is_attribute, set_attribute,
+    get_attribute, get_computed_style, has_computed_style, is_attribute, set_attribute,
     style::{ComputedStyles, Mode},
     visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
@@ -140,7 +140,7 @@ impl State<'_> {
         element: Element<'input, '_>,
         computed_styles: &ComputedStyles<'input>,
     ) {
-        if !self.options.stroke {
+        if !self.options.stroke || is_styled(element, "stroke") {
             return;
         }
 
@@ -156,7 +156,8 @@ impl State<'_> {
             }
         });
 
-        if !is_stroke_width_zero && has_computed_style!(computed_styles, MarkerEnd) {
+        if !is_stroke_width_zero
+            && has_computed_style!(computed_styles, MarkerStart | MarkerMid | MarkerEnd) {
             log::debug!("skipping stroke removal, has marker");
             return;
         }
@@ -221,7 +222,7 @@ impl State<'_> {
         element: Element<'input, '_>,
         computed_styles: &ComputedStyles<'input>,
     ) {
-        if !self.options.fill {
+        if !self.options.fill || is_styled(element, "fill") {
             return;
         }
 
@@ -260,6 +261,17 @@ impl State<'_> {
     }
 }
 
+/// Returns whether the style attribute has a property that would outrank the attributes.
+fn is_styled(element: Element, prefix: &str) -> bool {
+    get_attribute!(element, Style).is_some_and(|style| {
+        style
+            .declarations
+            .iter()
+            .chain(style.important_declarations.iter())
+            .any(|property| property.property_id().name().starts_with(prefix))
+    })
+}
+
 impl Default for RemoveUselessStrokeAndFill {
     fn default() -> Self {
         RemoveUselessStrokeAndFill {
-- 
2.43.0


From 91eedaa4d8ed7f2361f0c0713e35503f3926b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:48 +0000
Subject: [PATCH 043/109] fix: keep lone moves and closings when converting
 segments

---
 crates/oxvg_path/src/paths/segment/convert.rs | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_path/src/paths/segment/convert.rs b/crates/oxvg_path/src/paths/segment/convert.rs
index a9b923f..43e588c 100644
--- a/crates/oxvg_path/src/paths/segment/convert.rs
+++ b/crates/oxvg_path/src/paths/segment/convert.rs
@@ -204,25 +204,30 @@ impl Segment {
         start: &mut Point,
         cursor: &mut Point,
         tolerance: &Tolerance,
+        z_end: &mut bool,
     ) -> Self {
         let mut result = Segment {
             start: *start,
             data: vec![],
             closed: false,
         };
-        let mut z_end = false;
+        *z_end = false;
         let mut control = None;
         for command in iterator {
-            if let Some(data) = Data::take(command, start, cursor, &mut control, &mut z_end) {
+            if let Some(data) = Data::take(command, start, cursor, &mut control, z_end) {
                 result.data.push(data);
             } else {
                 break;
             }
         }
+        if result.data.is_empty() && *z_end {
+            // Closing a lone move can be visible with caps and markers
+            result.data.push(Data::LineTo(result.start));
+        }
         if result.data.is_empty() {
             return result;
         }
-        if z_end {
+        if *z_end {
             *cursor = result.start;
             result.closed = true;
             return result;
@@ -247,10 +252,24 @@ impl Path {
         };
         let mut cursor = start;
         while iterator.peek().is_some() {
-            let component = Segment::take(&mut iterator, &mut start, &mut cursor, tolerance);
+            let mut z_end = false;
+            let component =
+                Segment::take(&mut iterator, &mut start, &mut cursor, tolerance, &mut z_end);
             result.0.push(component);
+            // A move following `Z` starts the next segment, instead of ending an empty one
+            if z_end
+                && let Some(command @ (command::Data::MoveTo(_) | command::Data::MoveBy(_))) =
+                    iterator.peek()
+            {
+                Data::take(command, &mut start, &mut cursor, &mut None, &mut false);
+                iterator.next();
+            }
         }
-        if result.0.is_empty() {
+        let is_move_end = matches!(
+            value.0.last(),
+            Some(command::Data::MoveTo(_) | command::Data::MoveBy(_))
+        );
+        if is_move_end {
             result.0.push(Segment {
                 start,
                 data: vec![],
-- 
2.43.0


From 05fbc6ce0fbf13c744bb9499bd3f717c3d44641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:34 +0000
Subject: [PATCH 044/109] fix: identify elements by node in selector caches

---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index 0779cdf..f26e86c 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -345,7 +345,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     type Impl = SelectorImpl;
 
     fn opaque(&self) -> selectors::OpaqueElement {
-        selectors::OpaqueElement::new(self)
+        selectors::OpaqueElement::new(self.element.0)
     }
 
     fn parent_element(&self) -> Option<Self> {
-- 
2.43.0


From b837c438520a1fb5e69fb2f517452b6637f9bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:34 +0000
Subject: [PATCH 045/109] fix: match type selectors case-sensitively

---
 crates/oxvg_ast/src/selectors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index f26e86c..ba372be 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -377,7 +377,7 @@ impl selectors::Element for SelectElement<'_, '_> {
     }
 
     fn is_html_element_in_html_document(&self) -> bool {
-        true
+        false
     }
 
     fn has_local_name(
-- 
2.43.0


From 31c0d30d5e15fb4b0d51685101da42afca8a5b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:34 +0000
Subject: [PATCH 046/109] fix: ignore comments and instructions in :empty

---
 crates/oxvg_ast/src/selectors.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_ast/src/selectors.rs b/crates/oxvg_ast/src/selectors.rs
index ba372be..81810ce 100644
--- a/crates/oxvg_ast/src/selectors.rs
+++ b/crates/oxvg_ast/src/selectors.rs
@@ -521,12 +521,16 @@ impl selectors::Element for SelectElement<'_, '_> {
 
     fn is_empty(&self) -> bool {
         !self.element.has_child_nodes()
-            || self.element.child_nodes_iter().all(|child| {
-                child.node_type() == node::Type::Text
-                    && child
+            || self
+                .element
+                .child_nodes_iter()
+                .all(|child| match child.node_type() {
+                    node::Type::Text => child
                         .text_content()
-                        .is_none_or(|string| string.trim().is_empty())
-            })
+                        .is_none_or(|string| string.trim().is_empty()),
+                    node::Type::Comment | node::Type::ProcessingInstruction => true,
+                    _ => false,
+                })
     }
 
     fn is_root(&self) -> bool {
-- 
2.43.0


From 2c92021454b5ab1d965a5543f153a3d3dcd79f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:34 +0000
Subject: [PATCH 047/109] fix: unlink children when emptying a node

---
 crates/oxvg_ast/src/node.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5973cfc..5282469 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -274,8 +274,9 @@ impl<'input, 'arena> Node<'input, 'arena> {
 
     /// Removes all child nodes
     pub fn empty(&self) {
-        self.first_child.set(None);
-        self.last_child.set(None);
+        while let Some(child) = self.first_child() {
+            child.remove();
+        }
     }
 
     /// Does a breadth-first search to find an element from the current node, returning this node
-- 
2.43.0


From cf4f494932eb71d76b4139828e114f6fb5fe8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:34 +0000
Subject: [PATCH 048/109] fix: relink following siblings when retaining
 children

---
 crates/oxvg_ast/src/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 5282469..1536571 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -352,9 +352,12 @@ impl<'input, 'arena> Node<'input, 'arena> {
             let retain = f(child);
             if retain {
                 child.previous_sibling.set(previously_retained);
-                if previously_retained.is_none() {
+                if let Some(previous) = previously_retained {
+                    previous.next_sibling.set(Some(child));
+                } else {
                     self.first_child.set(Some(child));
                 }
+                child.next_sibling.set(None);
                 previously_retained = Some(child);
                 self.last_child.set(Some(child));
             } else {
-- 
2.43.0


From 3b8b41fdf5357c1a7d534481684e23e8d2fc937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:34 +0000
Subject: [PATCH 049/109] fix: detach a node before appending it or replacing
 another with it

---
 crates/oxvg_ast/src/node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 1536571..26c578b 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -430,6 +430,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
     ///
     /// [MDN | appendChild](https://developer.mozilla.org/en-US/docs/Web/API/Node/appendChild)
     pub fn append_child(&'arena self, a_child: Ref<'input, 'arena>) {
+        a_child.remove();
         a_child.parent.set(Some(self));
         if let Some(child) = self.last_child.replace(Some(a_child)) {
             child.next_sibling.set(Some(a_child));
@@ -706,6 +707,7 @@ impl<'input, 'arena> Node<'input, 'arena> {
         debug_assert_eq!(old_child.parent.get(), Some(self));
         debug_assert!(self.child_nodes_iter().contains(old_child));
 
+        new_child.remove();
         let previous_sibling = old_child.previous_sibling.take();
         let next_sibling = old_child.next_sibling.take();
         old_child.parent.set(None);
-- 
2.43.0


From 8415d1d278481e578f136ac2ad253383fd5afcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:43 +0000
Subject: [PATCH 050/109] fix: keep children when renaming an element

---
 crates/oxvg_ast/src/element.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index b120247..44cf40c 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -424,7 +424,11 @@ impl<'input, 'arena> Element<'input, 'arena> {
             ranges: std::collections::HashMap::new(),
         });
         self.replace_with(replacement);
-        Self(&*replacement)
+        let replacement = Self(&*replacement);
+        while let Some(child) = self.first_child() {
+            replacement.append(child);
+        }
+        replacement
     }
 
     /// Returns the element immediately following this one in it's parent's child list.
-- 
2.43.0


From ef514f021040406bb54e41bd9d72dcdb9ff1386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:43 +0000
Subject: [PATCH 051/109] fix: relink first child and order non-elements when
 sorting children

---
 crates/oxvg_ast/src/element.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 44cf40c..ce0fcce 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -686,22 +686,19 @@ impl<'input, 'arena> Element<'input, 'arena> {
     {
         let mut children: Vec<_> = self.child_nodes_iter().collect();
         children.sort_by(|a, b| {
-            let Some(a) = Element::new(a) else {
-                return std::cmp::Ordering::Less;
-            };
-            let Some(b) = Element::new(b) else {
-                return std::cmp::Ordering::Greater;
-            };
-            f(a, b)
+            match (Element::new(a), Element::new(b)) {
+                (Some(a), Some(b)) => f(a, b),
+                (a, b) => a.is_some().cmp(&b.is_some()),
+            }
         });
 
         self.first_child.set(children.first().copied());
         self.last_child.set(children.last().copied());
         for i in 0..children.len() {
             let child = children[i];
-            if i > 0 {
-                child.previous_sibling.set(children.get(i - 1).copied());
-            }
+            child
+                .previous_sibling
+                .set(i.checked_sub(1).map(|i| children[i]));
             child.next_sibling.set(children.get(i + 1).copied());
         }
     }
-- 
2.43.0


From 628a3d429aaad3ed6a7512755af3e597cc33ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:43 +0000
Subject: [PATCH 052/109] fix: detach replaced and new children in
 replace_children

---
 crates/oxvg_ast/src/element.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index ce0fcce..72dad21 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -6,7 +6,6 @@ use std::{
     ops::Deref,
 };
 
-use itertools::Itertools as _;
 use oxvg_collections::{
     atom::Atom,
     attribute::{Attr, AttrId},
@@ -349,25 +348,12 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | replaceChildren](https://developer.mozilla.org/en-US/docs/Web/API/Element/replaceChildren)
     pub fn replace_children(&self, children: impl std::iter::Iterator<Item = Ref<'input, 'arena>>) {
-        let mut children = children.peekable();
-        let first = children.peek().copied();
-        self.first_child.set(first);
-        first.inspect(|first| {
-            first.previous_sibling.set(None);
-        });
-        let mut last = first;
-        for (a, b) in children.tuple_windows() {
-            // NOTE: This only runs if children >= 2
-            a.parent.set(Some(self));
-            a.next_sibling.set(Some(b));
-            b.previous_sibling.set(Some(a));
-            last = Some(b);
+        // NOTE: The iterator may be reading from the children which are about to be removed
+        let children: Vec<_> = children.collect();
+        self.empty();
+        for child in children {
+            self.append(child);
         }
-        last.inspect(|last| {
-            last.parent.set(Some(self));
-            last.next_sibling.set(None);
-        });
-        self.last_child.set(last);
     }
 
     /// Replaces this element in the children list of it's parent with another.
-- 
2.43.0


From 0deaec41fe6799c1934f5de8fcb58158aaf3bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:43 +0000
Subject: [PATCH 053/109] fix: detach the node before inserting it with prepend
 and before

---
 crates/oxvg_ast/src/element.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/oxvg_ast/src/element.rs b/crates/oxvg_ast/src/element.rs
index 72dad21..7a0d7f5 100644
--- a/crates/oxvg_ast/src/element.rs
+++ b/crates/oxvg_ast/src/element.rs
@@ -324,6 +324,7 @@ impl<'input, 'arena> Element<'input, 'arena> {
     ///
     /// [MDN | prepend](https://developer.mozilla.org/en-US/docs/Web/API/Element/prepend)
     pub fn prepend(&self, node: Ref<'input, 'arena>) {
+        node.remove();
         if let Some(first_node) = self.first_child.get() {
             first_node.previous_sibling.set(Some(node));
             node.next_sibling.set(Some(first_node));
@@ -478,8 +479,6 @@ impl<'input, 'arena> Element<'input, 'arena> {
     /// [MDN | before](https://developer.mozilla.org/en-US/docs/Web/API/Element/before)
     pub fn before(&self, node: Ref<'input, 'arena>) -> Option<()> {
         let parent = self.parent_node()?;
-        node.remove();
-        node.set_parent_node(&parent);
         parent.insert_before(node, self);
         Some(())
     }
-- 
2.43.0


From 5c288c4422d40a607beeddc92ac57d67a83d850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:42 +0000
Subject: [PATCH 054/109] fix: leave transforms of paths with inherited markers

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index 0437b47..c5829ee 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -157,6 +157,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
             log::debug!("run: element may inherit paint where it's used");
             return Ok(());
         }
+        if has_computed_style!(computed_styles, MarkerStart | MarkerMid | MarkerEnd) {
+            log::debug!("run: markers depend on the element's coordinates");
+            return Ok(());
+        }
         if matches!(
             stroke,
             ComputedStyle::Some((_, Mode::Dynamic)) | ComputedStyle::Unparsed
-- 
2.43.0


From 8eaad9d7f954d2b446ddf9e6027e4026027288e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:42 +0000
Subject: [PATCH 055/109] fix: leave transforms of strokes with inherited
 widths or dashes

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index c5829ee..ea9f14d 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -266,6 +266,13 @@ impl ApplyTransforms {
             log::debug!("apply_stroked: cannot scale stroke set elsewhere");
             return true;
         }
+        if get_attribute!(element, StrokeWidth).is_some_and(|v| v.option_ref().is_none())
+            || get_attribute!(element, StrokeDasharray).is_some_and(|v| v.option_ref().is_none())
+            || get_attribute!(element, StrokeDashoffset).is_some_and(|v| v.option_ref().is_none())
+        {
+            log::debug!("apply_stroked: cannot scale inherited stroke");
+            return true;
+        }
         let scale = scale as f32;
 
         let stroke_width = match stroke_width {
-- 
2.43.0


From de693df9241ecd140beb4b4a7a43463bdae7d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:42 +0000
Subject: [PATCH 056/109] fix: keep a decimal of angles from short matrices

---
 crates/oxvg_optimiser/src/jobs/convert_transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_transform.rs b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
index c344e04..ab41421 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_transform.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_transform.rs
@@ -171,7 +171,7 @@ impl ConvertTransform {
 
         let deg_precision = match self.deg_precision {
             Some(value) => value,
-            None => i32::max(0, i32::min(self.float_precision, number_of_digits - 2)),
+            None => i32::max(1, i32::min(self.float_precision, number_of_digits - 2)),
         };
 
         (deg_precision, transform_precision)
-- 
2.43.0


From 22b925dcee63aef233ffcd348b693670d22e288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:43 +0000
Subject: [PATCH 057/109] fix: treat conditional line caps as possibly drawn

---
 crates/oxvg_optimiser/src/utils/style_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/utils/style_info.rs b/crates/oxvg_optimiser/src/utils/style_info.rs
index a5ae1e1..f600f6d 100644
--- a/crates/oxvg_optimiser/src/utils/style_info.rs
+++ b/crates/oxvg_optimiser/src/utils/style_info.rs
@@ -26,7 +26,7 @@ pub fn gather_optimize_options(
     });
     let maybe_has_linecap = linecap.as_ref().entry().is_some_and(|linecap| {
         linecap.is_none_or(|(linecap, mode)| {
-            mode == Mode::Static && !matches!(linecap, Inheritable::Defined(StrokeLinecap::Butt))
+            mode == Mode::Dynamic || !matches!(linecap, Inheritable::Defined(StrokeLinecap::Butt))
         })
     });
     let safe_to_close = !maybe_has_stroke
-- 
2.43.0


From 227505a6d119f444a0dfcd3b67be8a378bb8b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 058/109] fix: anchor every alternative of removeAttrs patterns

---
 crates/oxvg_optimiser/src/jobs/remove_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_attrs.rs b/crates/oxvg_optimiser/src/jobs/remove_attrs.rs
index c04e4f8..450c22d 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_attrs.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_attrs.rs
@@ -93,7 +93,7 @@ fn create_regex(part: &str) -> Result<Option<Regex>, Error> {
         return Ok(None);
     }
     Ok(Some(
-        regex_memo::get(&format!("^{part}$")).map(|memo| memo.value().clone())?,
+        regex_memo::get(&format!("^(?:{part})$")).map(|memo| memo.value().clone())?,
     ))
 }
 
-- 
2.43.0


From b5d86f5bfa7b94bc4420fcf11e759ffcd7b4ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 059/109] fix: keep currentColor in every attribute when asked
 to preserve it

---
 .../oxvg_optimiser/src/jobs/remove_attrs.rs   | 27 +++++--------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_attrs.rs b/crates/oxvg_optimiser/src/jobs/remove_attrs.rs
index 450c22d..f6007d9 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_attrs.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_attrs.rs
@@ -2,13 +2,6 @@ use oxvg_ast::{
     element::Element,
     visitor::{Context, Visitor},
 };
-use oxvg_collections::{
-    attribute::{
-        core_attrs::{Color, Paint},
-        inheritable::Inheritable,
-    },
-    content_type::{ContentType, ContentTypeRef},
-};
 use oxvg_serialize::{PrinterOptions, ToValue as _};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -147,23 +140,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveAttrs {
             }
 
             element.attributes().retain(|attr| {
-                if self.preserve_current_color
-                    && matches!(
-                        attr.value(),
-                        ContentType::Inheritable(Inheritable::Defined(attr)) if matches!(*attr, ContentType::Paint(
-                            ContentTypeRef::Ref(&Paint::Color(Color::CurrentColor)),
-                        ))
-                    )
-                {
+                let value = attr
+                    .value()
+                    .to_value_string(PrinterOptions::default())
+                    .unwrap();
+                if self.preserve_current_color && value.eq_ignore_ascii_case("currentColor") {
                     return true;
                 }
 
-                if !pattern[2].as_ref().is_none_or(|p| p.is_match(
-                    &attr
-                        .value()
-                        .to_value_string(PrinterOptions::default())
-                        .unwrap(),
-                )) {
+                if !pattern[2].as_ref().is_none_or(|p| p.is_match(&value)) {
                     return true;
                 }
 
-- 
2.43.0


From 5d8e8a34bc84b2e54e837c0bffb3b2c07f196cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 060/109] fix: remove raster images referenced by plain href

---
 crates/oxvg_optimiser/src/jobs/remove_raster_images.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
index e4ab2b1..7b8847f 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
@@ -52,11 +52,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveRasterImages {
         if !is_element!(element, Image) {
             return Ok(());
         }
-        let Some(xlink_href) = get_attribute!(element, XLinkHref) else {
-            return Ok(());
-        };
+        let is_raster = get_attribute!(element, XLinkHref).is_some_and(|href| is_raster_image(&href))
+            || get_attribute!(element, Href).is_some_and(|href| is_raster_image(&href));
 
-        if is_raster_image(&xlink_href) {
+        if is_raster {
             element.remove();
         }
         Ok(())
-- 
2.43.0


From bff616dcebf3db32fdf6e560211e9e45412ea79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 061/109] fix: keep tspan elements holding a space

---
 crates/oxvg_optimiser/src/jobs/remove_empty_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs b/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
index 7487851..fa3a417 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_empty_text.rs
@@ -54,7 +54,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveEmptyText {
             element.remove();
         }
 
-        if self.tspan.unwrap_or(true) && is_element!(element, TSpan) && element.is_empty() {
+        if self.tspan.unwrap_or(true) && is_element!(element, TSpan) && !element.has_child_nodes() {
             element.remove();
         }
 
-- 
2.43.0


From 308134c9d55da704e4b9308120471f800a61a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 062/109] fix: remove all event handlers and script links, keep
 link text

---
 .../oxvg_optimiser/src/jobs/remove_scripts.rs | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index 7f16c73..b8ef5a8 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -3,7 +3,10 @@ use oxvg_ast::{
     is_element, node,
     visitor::{Context, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{Attr, AttributeGroup};
+use oxvg_collections::{
+    attribute::{Attr, AttributeGroup},
+    is_prefix,
+};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -61,10 +64,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
         }
 
         element.attributes().retain(|attr| {
-            !attr
-                .name()
-                .attribute_group()
-                .intersects(AttributeGroup::event())
+            // Includes handlers which aren't listed for the element
+            let is_handler = is_prefix!(attr, SVG) && attr.local_name().starts_with("on");
+            !is_handler
+                && !attr
+                    .name()
+                    .attribute_group()
+                    .intersects(AttributeGroup::event())
         });
 
         Ok(())
@@ -83,13 +89,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
             let (Attr::Href(href) | Attr::XLinkHref(href)) = attr.unaliased() else {
                 return false;
             };
-            href.trim_start().starts_with("javascript:")
+            href.trim_start()
+                .get(.."javascript:".len())
+                .is_some_and(|scheme| scheme.eq_ignore_ascii_case("javascript:"))
         });
         if !is_href_js {
             return Ok(());
         }
 
-        element.retain_children(|node| node.node_type() != node::Type::Text);
+        element.retain_children(|node| {
+            node.node_type() != node::Type::Text
+                || node
+                    .text_content()
+                    .is_some_and(|text| !text.trim().is_empty())
+        });
         element.flatten();
 
         Ok(())
-- 
2.43.0


From 2cc18af2da91678fad721f318f7d4725884f05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 063/109] fix: add classes to the root in order, also without a
 class attribute

---
 .../src/jobs/add_classes_to_s_v_g_element.rs  | 56 ++++++++-----------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
index 4b603e0..e0039ce 100644
--- a/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/add_classes_to_s_v_g_element.rs
@@ -1,8 +1,6 @@
-use std::collections::HashSet;
-
 use oxvg_ast::{
     element::Element,
-    get_attribute_mut, is_element,
+    get_attribute_mut, has_attribute, is_element, set_attribute,
     visitor::{Context, Visitor},
 };
 use oxvg_collections::{
@@ -88,44 +86,38 @@ impl<'input, 'arena> Visitor<'input, 'arena> for AddClassesToSVGElement {
     fn element(
         &self,
         element: Element<'input, 'arena>,
-        context: &mut Context<'input, 'arena, '_>,
+        _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
         if !element.is_root() || !is_element!(element, Svg) {
             return Ok(());
         }
 
+        let names: Vec<&str> = match (&self.class_names, &self.class_name) {
+            (Some(names), _) => names.iter().map(String::as_str).collect(),
+            (None, Some(name)) => name.split_whitespace().collect(),
+            (None, None) => return Ok(()),
+        };
+        if names.is_empty() {
+            return Ok(());
+        }
+
+        if !has_attribute!(element, Class) {
+            set_attribute!(
+                element,
+                Class(ListOf {
+                    list: vec![],
+                    separator: Space,
+                })
+            );
+        }
         let Some(mut class) = get_attribute_mut!(element, Class) else {
             return Ok(());
         };
-
-        match &self.class_names {
-            Some(names) => {
-                let mut set = HashSet::new();
-                for item in class.list.drain(..) {
-                    set.insert(item);
-                }
-                set.extend(
-                    names
-                        .iter()
-                        .map(|name| &*context.info.allocator.alloc_str(name))
-                        .map(Into::into),
-                );
-                class.list = set.into_iter().collect();
+        for name in names {
+            let name = NonWhitespace(Atom::from(name).into_owned());
+            if !class.list.contains(&name) {
+                class.list.push(name);
             }
-            None => match &self.class_name {
-                Some(name) => {
-                    *class = ListOf {
-                        list: name
-                            .split_whitespace()
-                            .map(Atom::from)
-                            .map(Atom::into_owned)
-                            .map(NonWhitespace)
-                            .collect(),
-                        separator: Space,
-                    }
-                }
-                None => return Ok(()),
-            },
         }
         Ok(())
     }
-- 
2.43.0


From c5ec12506976dfe8713e46613cee9c97e9e6f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:42 +0000
Subject: [PATCH 064/109] fix: keep list values made of one unknown item

---
 crates/oxvg_collections/src/attribute/list_of.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_collections/src/attribute/list_of.rs b/crates/oxvg_collections/src/attribute/list_of.rs
index 3dd9dd6..b44566f 100644
--- a/crates/oxvg_collections/src/attribute/list_of.rs
+++ b/crates/oxvg_collections/src/attribute/list_of.rs
@@ -277,11 +277,12 @@ impl<'input, T: Parse<'input> + std::fmt::Debug + PartialEq, S: Separator> Parse
             quote = input.slice().chars().next();
         }
         let mut start = Parser::new(take_matches(input, quote.as_ref()));
+        let is_empty = start.is_empty();
         quote = None;
         let mut list = match T::parse(&mut start) {
             Ok(first) if start.is_empty() => vec![first],
             Ok(_) => return Err(Error::ExpectedDone),
-            Err(_) if start.is_empty() => {
+            Err(_) if is_empty => {
                 return Ok(Self {
                     list: vec![],
                     separator: S::new(),
-- 
2.43.0


From 33c375edee50a9c6e5c7241ae893c25e72955a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:34 +0000
Subject: [PATCH 065/109] fix: separate font families and masks by commas

---
 crates/oxvg_collections/src/attribute.rs              | 6 +++---
 crates/oxvg_collections/src/attribute/presentation.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 294df98..69f4241 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -31,7 +31,7 @@ use lightningcss::{
     },
     vendor_prefix::VendorPrefix,
 };
-use list_of::{ListOf, Semicolon, Separators, Space, SpaceOrComma};
+use list_of::{Comma, ListOf, Semicolon, Separators, Space, SpaceOrComma};
 use path::{Path, Points};
 use presentation::{
     AlignmentBaseline, BaselineShift, Clip, ClipPath, ColorInterpolation, ColorProfile,
@@ -2695,7 +2695,7 @@ try_from_into_property! {
     Font(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontFamily(value) => Inheritable::Defined(FontFamily(ListOf {
         list: value,
-        separator: SpaceOrComma,
+        separator: Comma,
     })) => value.option().ok_or(())?.0.list,
     FontSize(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     FontStretch(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
@@ -2709,7 +2709,7 @@ try_from_into_property! {
     Marker(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     Mask(value, vp) => Inheritable::Defined(Mask(ListOf {
         list: value.to_vec(),
-        separator: SpaceOrComma,
+        separator: Comma,
     })) => value.option().ok_or(())?.0.list.into(),
     Opacity(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
     Overflow(value) => Inheritable::Defined(value) => value.option().ok_or(())?,
diff --git a/crates/oxvg_collections/src/attribute/presentation.rs b/crates/oxvg_collections/src/attribute/presentation.rs
index 2ba4496..2cf2593 100644
--- a/crates/oxvg_collections/src/attribute/presentation.rs
+++ b/crates/oxvg_collections/src/attribute/presentation.rs
@@ -3,7 +3,7 @@ use std::ops::{Deref, DerefMut};
 
 use super::{
     core_attrs::{Angle, Anything, Length, Number, Percentage},
-    list_of::{ListOf, SpaceOrComma},
+    list_of::{Comma, ListOf},
 };
 use lightningcss::values::length::LengthValue;
 pub use lightningcss::{
@@ -420,7 +420,7 @@ fn enable_background() {
 ///
 /// [w3 | SVG 1.1](https://www.w3.org/TR/2011/REC-SVG11-20110816/text.html#FontFamilyProperty)
 pub struct FontFamily<'input>(
-    pub ListOf<lightningcss::properties::font::FontFamily<'input>, SpaceOrComma>,
+    pub ListOf<lightningcss::properties::font::FontFamily<'input>, Comma>,
 );
 #[cfg(feature = "parse")]
 impl<'input> Parse<'input> for FontFamily<'input> {
@@ -1104,7 +1104,7 @@ fn length_percentage() {
 ///
 /// [SVG 1.1](https://www.w3.org/TR/2011/REC-SVG11-20110816/masking.html#MaskProperty)
 /// [SVG 2](https://drafts.fxtf.org/css-masking-1/#propdef-mask)
-pub struct Mask<'input>(pub ListOf<lightningcss::properties::masking::Mask<'input>, SpaceOrComma>);
+pub struct Mask<'input>(pub ListOf<lightningcss::properties::masking::Mask<'input>, Comma>);
 #[cfg(feature = "parse")]
 impl<'input> Parse<'input> for Mask<'input> {
     fn parse<'t>(input: &mut Parser<'input>) -> Result<Self, Error<'input>> {
-- 
2.43.0


From 951e8a39be8e8f9c0818dffee0fb63aee207c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:34 +0000
Subject: [PATCH 066/109] fix: keep signed clock values and write seconds with
 two digits

---
 .../src/attribute/animation_timing.rs         | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute/animation_timing.rs b/crates/oxvg_collections/src/attribute/animation_timing.rs
index 1c76b95..9e55c57 100644
--- a/crates/oxvg_collections/src/attribute/animation_timing.rs
+++ b/crates/oxvg_collections/src/attribute/animation_timing.rs
@@ -75,6 +75,10 @@ impl<'input> Parse<'input> for ClockValue {
             })
             .or_else(|_: Error<'input>| {
                 input.try_parse(|input| {
+                    if sign < 0.0 {
+                        // The sign cannot be kept by the parts
+                        return Err(Error::InvalidNumber);
+                    }
                     let timecount = timecount as Integer;
                     input.expect_char(':')?;
                     let minutes_or_seconds = f32::parse(input)?;
@@ -123,10 +127,7 @@ impl ToValue for ClockValue {
                 }
                 minutes.write_value(dest)?;
                 dest.write_char(':')?;
-                if *seconds < 10.0 {
-                    dest.write_char('0')?;
-                }
-                seconds.write_value(dest)?;
+                write_seconds(*seconds, dest)?;
                 Ok(())
             }
             Self::FullClockValue {
@@ -144,16 +145,28 @@ impl ToValue for ClockValue {
                 }
                 minutes.write_value(dest)?;
                 dest.write_char(':')?;
-                if *seconds < 10.0 {
-                    dest.write_char('0')?;
-                }
-                seconds.write_value(dest)?;
+                write_seconds(*seconds, dest)?;
                 Ok(())
             }
         }
     }
 }
 
+#[cfg(feature = "serialize")]
+/// Writes seconds with at least two digits before the fraction
+fn write_seconds<W>(seconds: CSSNumber, dest: &mut Printer<W>) -> Result<(), PrinterError>
+where
+    W: std::fmt::Write,
+{
+    if seconds < 10.0 {
+        dest.write_char('0')?;
+    }
+    if seconds > 0.0 && seconds < 1.0 {
+        dest.write_char('0')?;
+    }
+    seconds.write_value(dest)
+}
+
 #[derive(Clone, Default, Debug, PartialEq, Eq)]
 /// The metric used by a timeclock value
 pub enum Metric {
-- 
2.43.0


From 3199a4ae2a09e65153a61630bc2d8ef1ef66bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 067/109] fix: keep referenced ids when cleanupIds doesn't
 minify

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index ee95858..f4db977 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -219,7 +219,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
@@ -247,7 +251,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
                     generated_id.next();
                 }
                 if !is_attribute!(name, Id) {
-                    used_ids.insert(minified_id.clone());
+                    used_ids.insert(if self.options.minify {
+                        minified_id.clone()
+                    } else {
+                        referenced_id.clone()
+                    });
                 }
                 if self.options.minify {
                     log::debug!(
-- 
2.43.0


From a8ccfa6e9fca21b1bf7da2be1cc8551bd3b71402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 068/109] fix: keep the paint of gradients with one stop

---
 .../src/jobs/convert_one_stop_gradients.rs    | 138 ++++++++++--------
 1 file changed, 81 insertions(+), 57 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 31bb659..982d7af 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -5,13 +5,13 @@ use std::{
 
 use lightningcss::{
     properties::{Property, custom::TokenOrValue},
-    values::url::Url,
+    values::{alpha::AlphaValue, color::RGBA, url::Url},
     visit_types,
     visitor::Visit,
 };
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, has_attribute, is_element,
+    get_attribute, get_attribute_mut, is_element,
     node::AllocationID,
     style::{ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
@@ -24,6 +24,7 @@ use oxvg_collections::{
         inheritable::Inheritable,
     },
     content_type::ContentType,
+    is_prefix,
     name::{Prefix, QualName},
 };
 #[cfg(feature = "serde")]
@@ -56,7 +57,7 @@ struct State<'input, 'arena> {
     /// All defs and their associated parent
     all_defs: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
     gradients_to_detach: RefCell<HashMap<AllocationID, Element<'input, 'arena>>>,
-    xlink_href_count: Cell<usize>,
+    xlink_count: Cell<usize>,
 }
 
 impl<'input, 'arena> Visitor<'input, 'arena> for ConvertOneStopGradients {
@@ -91,9 +92,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        if has_attribute!(element, XLinkHref) {
-            self.xlink_href_count.set(self.xlink_href_count.get() + 1);
-        }
+        self.xlink_count
+            .set(self.xlink_count.get() + count_xlinks(element));
         if is_element!(element, Defs) {
             self.all_defs.borrow_mut().insert(element.id(), element);
             return Ok(());
@@ -101,60 +101,59 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             return Ok(());
         }
 
-        let mut stops = element
-            .children_iter()
-            .filter(|child| is_element!(child, Stop));
-
-        let href = get_attribute!(element, XLinkHref).or_else(|| get_attribute!(element, Href));
-        let effective_node = if stops.next().is_none() {
-            if let Some(href) = href.as_deref() {
-                if href.starts_with('#') {
-                    context.root.breadth_first().find(|element| {
-                        get_attribute!(element, Id).is_some_and(|id| id.0.as_str() == &href[1..])
-                    })
-                } else {
-                    Some(element)
+        let mut effective_node = element;
+        let mut seen = vec![element.id()];
+        let effective_stops: Vec<_> = loop {
+            let stops: Vec<_> = effective_node
+                .children_iter()
+                .filter(|child| is_element!(child, Stop))
+                .collect();
+            if !stops.is_empty() {
+                break stops;
+            }
+            let href = get_attribute!(effective_node, Href)
+                .or_else(|| get_attribute!(effective_node, XLinkHref));
+            let referenced = href.as_deref().and_then(|href| {
+                let id = href.strip_prefix('#')?;
+                context.root.breadth_first().find(|element| {
+                    get_attribute!(element, Id).is_some_and(|value| value.0.as_str() == id)
+                })
+            });
+            drop(href);
+            match referenced {
+                Some(referenced) if !seen.contains(&referenced.id()) => {
+                    seen.push(referenced.id());
+                    effective_node = referenced;
                 }
-            } else {
-                Some(element)
+                _ => break stops,
             }
-        } else {
-            Some(element)
-        };
-        drop(href);
-
-        let mut gradients_to_detach = self.gradients_to_detach.borrow_mut();
-        let Some(effective_node) = effective_node else {
-            log::debug!("no effective nodes for gradient");
-            gradients_to_detach.insert(element.id(), element);
-            return Ok(());
         };
 
-        let effective_stops: Vec<_> = effective_node
-            .children_iter()
-            .filter(|child| is_element!(child, Stop))
-            .collect();
-
         if effective_stops.len() != 1 {
             log::debug!("skipping, multiple/zero stops for gradient");
             return Ok(());
         }
 
+        let Some(color) = get_color(context, effective_stops[0])? else {
+            log::debug!("skipping, colour isn't known");
+            return Ok(());
+        };
+
         if let Some(parent) = element.parent_element()
             && is_element!(parent, Defs)
         {
             self.effected_defs.borrow_mut().insert(parent.id(), parent);
         }
 
-        gradients_to_detach.insert(element.id(), element);
+        self.gradients_to_detach
+            .borrow_mut()
+            .insert(element.id(), element);
 
-        let color = get_color(context, &effective_stops)?;
         let Some(id) = get_attribute!(element, Id) else {
             log::debug!("skipping reference updates, no id");
             return Ok(());
         };
         log::debug!("updating colors: {color:?}");
-        let Some(color) = color else { return Ok(()) };
         let id_value = id.clone();
         drop(id);
         update_color_references(context, &color, &id_value);
@@ -166,19 +165,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         element: Element<'input, 'arena>,
         _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        if !is_element!(element, Svg) {
+        if !element.is_root() {
             return Ok(());
         }
 
         for gradient in self.gradients_to_detach.borrow().values() {
-            if has_attribute!(gradient, XLinkHref) {
-                self.xlink_href_count.set(self.xlink_href_count.get() - 1);
-            }
-
+            self.xlink_count
+                .set(self.xlink_count.get() - count_xlinks(*gradient));
             gradient.remove();
         }
 
-        if self.xlink_href_count.get() == 0 {
+        if self.xlink_count.get() == 0 {
             element.remove_attribute(&AttrId::Unknown(QualName {
                 prefix: Prefix::XMLNS,
                 local: Atom::Static("xlink"),
@@ -198,24 +195,44 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
 
 fn get_color<'input, 'arena>(
     context: &mut Context<'input, 'arena, '_>,
-    effective_stops: &[Element<'input, 'arena>],
+    effective_stop: Element<'input, 'arena>,
 ) -> Result<Option<Color>, JobsError<'input>> {
-    let effective_stop = effective_stops.first().expect("len should be 1");
     let computed_styles = ComputedStyles::default()
-        .with_all(*effective_stop, &context.query_has_stylesheet_result)
+        .with_all(effective_stop, &context.query_has_stylesheet_result)
         .map_err(JobsError::ComputedStylesError)?;
 
-    if let Some((stop_color, Mode::Static)) = computed_styles.get(&AttrId::StopColor) {
-        return Ok(match stop_color {
-            Attr::StopColor(Inheritable::Defined(color)) => Some(color),
-            Attr::CSSUnknown { value, .. } => value.0.0.into_iter().find_map(|token| match token {
+    let is_opaque = match computed_styles.get(&AttrId::StopOpacity) {
+        None => true,
+        Some((Attr::StopOpacity(Inheritable::Defined(AlphaValue(opacity))), Mode::Static)) => {
+            opacity >= 1.0
+        }
+        Some(_) => false,
+    };
+    if !is_opaque {
+        return Ok(None);
+    }
+
+    let color = match computed_styles.get(&AttrId::StopColor) {
+        None => Some(Color::RGBA(RGBA::new(0, 0, 0, 1.0))),
+        Some((Attr::StopColor(Inheritable::Defined(color)), Mode::Static)) => Some(color),
+        Some((Attr::CSSUnknown { value, .. }, Mode::Static)) => {
+            value.0.0.into_iter().find_map(|token| match token {
                 TokenOrValue::Color(color) => Some(color),
                 _ => None,
-            }),
-            _ => None,
-        });
-    }
-    Ok(None)
+            })
+        }
+        Some(_) => None,
+    };
+    // `currentColor` is the stop's, not the painted element's
+    Ok(color.filter(|color| !matches!(color, Color::CurrentColor)))
+}
+
+fn count_xlinks(element: Element) -> usize {
+    element
+        .attributes()
+        .into_iter()
+        .filter(|attr| is_prefix!(attr, XLink))
+        .count()
 }
 
 fn update_color_references(context: &mut Context, color: &Color, url: &str) {
@@ -274,6 +291,13 @@ fn update_style_references<'input>(
     url: &str,
 ) -> Result<(), JobsError<'input>> {
     for element in context.root.breadth_first() {
+        if is_element!(element, Style) {
+            for child in element.child_nodes_iter() {
+                if let Some(css) = child.style() {
+                    css.borrow_mut().visit(&mut VisitPaint { url, color })?;
+                }
+            }
+        }
         let mut style = get_attribute_mut!(element, Style);
         let Some(oxvg_collections::attribute::core_attrs::Style(style)) = style.as_deref_mut()
         else {
-- 
2.43.0


From 16ee93dd75270c0f2ff6bf632df39b4f65dc8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 069/109] fix: keep the radii and outline start of converted
 ellipses

---
 .../src/jobs/convert_shape_to_path.rs         | 53 ++++++++++++++-----
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
index 4c1abce..a502f14 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs
@@ -3,7 +3,8 @@ use std::cell;
 use lightningcss::{selector::Component, visit_types, visitor::Visit};
 use oxvg_ast::{
     element::Element,
-    get_attribute, has_attribute, remove_attribute, set_attribute,
+    get_attribute, has_attribute, has_computed_style, remove_attribute, set_attribute,
+    style::ComputedStyles,
     visitor::{Context, Info, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
@@ -177,13 +178,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
             ElementId::Circle
                 if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Circle) =>
             {
-                ConvertShapeToPath::circle_to_path(element, precision, context.info);
+                if !is_start_visible(element, context)? {
+                    ConvertShapeToPath::circle_to_path(element, precision, context.info);
+                }
             }
 
             ElementId::Ellipse
-                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Circle) =>
+                if convert_arcs && !self.referenced_shapes.contains(ReferencedShapes::Ellipse) =>
             {
-                ConvertShapeToPath::ellipse_to_path(element, precision, context.info);
+                if !is_start_visible(element, context)? {
+                    ConvertShapeToPath::ellipse_to_path(element, precision, context.info);
+                }
             }
 
             _ => {}
@@ -192,6 +197,20 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
     }
 }
 
+/// Returns whether it can be seen where the element's outline starts.
+fn is_start_visible<'input, 'arena>(
+    element: Element<'input, 'arena>,
+    context: &Context<'input, 'arena, '_>,
+) -> Result<bool, JobsError<'input>> {
+    let computed_styles = ComputedStyles::default()
+        .with_all(element, &context.query_has_stylesheet_result)
+        .map_err(JobsError::ComputedStylesError)?;
+    Ok(has_computed_style!(
+        computed_styles,
+        MarkerStart | MarkerMid | MarkerEnd | StrokeDasharray
+    ))
+}
+
 #[expect(clippy::needless_pass_by_value)]
 fn lp_px(lp: cell::Ref<LengthPercentage>) -> Option<f64> {
     use lightningcss::values::length::LengthPercentage;
@@ -353,6 +372,10 @@ impl ConvertShapeToPath {
         }) else {
             return;
         };
+        if r <= 0.0 {
+            // Isn't rendered, while an arc with no radius would be
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([cx, cy - r]),
@@ -391,18 +414,22 @@ impl ConvertShapeToPath {
         }) else {
             return;
         };
-        let Some(rx) = (match get_attribute!(element, RX) {
-            Some(rx) => r_px(rx),
-            None => Some(0.0),
-        }) else {
-            return;
+        // A missing radius is `auto`, for which the other radius is used
+        let (rx, ry) = match (get_attribute!(element, RX), get_attribute!(element, RY)) {
+            (Some(rx), Some(ry)) => (r_px(rx), r_px(ry)),
+            (Some(r), None) | (None, Some(r)) => {
+                let r = r_px(r);
+                (r, r)
+            }
+            (None, None) => return,
         };
-        let Some(ry) = (match get_attribute!(element, RY) {
-            Some(ry) => r_px(ry),
-            None => Some(0.0),
-        }) else {
+        let (Some(rx), Some(ry)) = (rx, ry) else {
             return;
         };
+        if rx <= 0.0 || ry <= 0.0 {
+            // Isn't rendered, while an arc with no radius would be
+            return;
+        }
 
         let mut path = Path(vec![
             Data::MoveTo([cx, cy - ry]),
-- 
2.43.0


From f17fa0506b3b23ef234e898501157b94090eb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 070/109] fix: don't let rules outrank styles moved to
 attributes

---
 .../src/jobs/convert_style_to_attrs.rs        | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
index 176665c..39a97a3 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs
@@ -4,7 +4,7 @@ use lightningcss::properties::Property;
 use oxvg_ast::{
     element::Element,
     get_attribute_mut,
-    visitor::{Context, Visitor},
+    visitor::{Context, ContextFlags, PrepareOutcome, Visitor},
 };
 use oxvg_collections::attribute::{Attr, AttrId};
 #[cfg(feature = "serde")]
@@ -66,6 +66,25 @@ impl Default for ConvertStyleToAttrs {
 impl<'input, 'arena> Visitor<'input, 'arena> for ConvertStyleToAttrs {
     type Error = JobsError<'input>;
 
+    fn prepare(
+        &self,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
+    ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
+        Ok(
+            // A rule which the inline style outranks would outrank the attribute
+            if context
+                .flags
+                .contains(ContextFlags::query_has_stylesheet_result)
+            {
+                PrepareOutcome::skip
+            } else {
+                PrepareOutcome::none
+            },
+        )
+    }
+
     fn element(
         &self,
         element: Element<'input, 'arena>,
-- 
2.43.0


From f4ba2184ed15b9d92002df8958df4067ef05d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 071/109] fix: don't prefix references when ids aren't prefixed

---
 crates/oxvg_optimiser/src/jobs/prefix_ids.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
index fcfdaae..2f12464 100644
--- a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
@@ -141,9 +141,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for PrefixIds {
                     Self::prefix_id(class, &mut prefix_generator);
                 });
             }
-            value.visit_url(|url| {
-                Self::prefix_reference(url, &mut prefix_generator);
-            });
+            if self.prefix_ids {
+                value.visit_url(|url| {
+                    Self::prefix_reference(url, &mut prefix_generator);
+                });
+            }
         }
 
         Ok(())
-- 
2.43.0


From 3377982a8d07f2e066afb5500fa08d92983a43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 072/109] fix: keep paths which are drawn on the canvas

---
 .../src/jobs/remove_off_canvas_paths.rs       | 97 +++++++++++++++++--
 1 file changed, 87 insertions(+), 10 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
index 937498f..42f2f51 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
@@ -1,12 +1,16 @@
 use std::cell::RefCell;
 
-use lightningcss::values::percentage::DimensionPercentage;
+use lightningcss::{properties::svg::SVGPaint, values::percentage::DimensionPercentage};
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, has_attribute, is_element,
+    get_attribute, has_attribute, has_computed_style, is_element,
+    style::{ComputedStyles, Mode},
     visitor::{Context, PrepareOutcome, Visitor},
 };
-use oxvg_collections::attribute::{path, presentation::LengthPercentage, uncategorised::ViewBox};
+use oxvg_collections::attribute::{
+    Attr, AttrId, inheritable::Inheritable, path, presentation::LengthPercentage,
+    uncategorised::ViewBox,
+};
 use oxvg_path::{
     command::Data,
     geometry::{Point, Tolerance},
@@ -65,6 +69,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for RemoveOffCanvasPaths {
 impl<'input, 'arena> Visitor<'input, 'arena> for State {
     type Error = JobsError<'input>;
 
+    fn prepare(
+        &self,
+        document: Element<'input, 'arena>,
+        context: &mut Context<'input, 'arena, '_>,
+    ) -> Result<PrepareOutcome, Self::Error> {
+        context.query_has_stylesheet(document);
+        Ok(PrepareOutcome::none)
+    }
+
     fn element(
         &self,
         element: Element<'input, 'arena>,
@@ -78,6 +91,17 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
             context.flags.visit_skip();
             return Ok(());
         }
+        if !element.is_root()
+            && (has_attribute!(element, Id | Filter)
+                || is_element!(
+                    element,
+                    Svg | Defs | Symbol | ClipPath | Mask | Marker | Pattern
+                ))
+        {
+            // May be drawn elsewhere
+            context.flags.visit_skip();
+            return Ok(());
+        }
 
         if !is_element!(element, Path) {
             return Ok(());
@@ -86,8 +110,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
         let Some(view_box_data) = view_box_data.as_ref() else {
             return Ok(());
         };
-        let mut path = get_attribute_mut!(element, D);
-        let Some(path::Path(path, _)) = path.as_deref_mut() else {
+        let Some(path::Path(mut path, _)) = get_attribute!(element, D).as_deref().cloned() else {
             return Ok(());
         };
 
@@ -113,10 +136,13 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
             width,
             height,
         } = view_box_data;
-        let min_x = *min_x as f64;
-        let min_y = *min_y as f64;
-        let max_x = min_x + *width as f64;
-        let max_y = min_y + *height as f64;
+        let Some(margin) = stroke_extent(element, context)? else {
+            return Ok(());
+        };
+        let max_x = (*min_x + *width) as f64 + margin;
+        let max_y = (*min_y + *height) as f64 + margin;
+        let min_x = *min_x as f64 - margin;
+        let min_y = *min_y as f64 - margin;
 
         let mut view_box_path_data = Segment::with_capacity(Point::new(min_x, min_y), 3);
         view_box_path_data.push(segment::Data::LineTo(Point::new(max_x, min_y)));
@@ -125,7 +151,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
         view_box_path_data.close();
         let view_box_path_data = segment::Path(vec![view_box_path_data]);
 
-        let segments = segment::Path::from_svg(&*path, &Tolerance::default());
+        let segments = segment::Path::from_svg(&path, &Tolerance::default());
         if !view_box_path_data.intersects(&segments) {
             element.remove();
         }
@@ -133,6 +159,47 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State {
     }
 }
 
+/// Returns how far a path's stroke may reach from its outline, or none when this isn't known.
+fn stroke_extent<'input, 'arena>(
+    element: Element<'input, 'arena>,
+    context: &Context<'input, 'arena, '_>,
+) -> Result<Option<f64>, JobsError<'input>> {
+    let computed_styles = ComputedStyles::default()
+        .with_all(element, &context.query_has_stylesheet_result)
+        .map_err(JobsError::ComputedStylesError)?;
+    if has_computed_style!(computed_styles, MarkerStart | MarkerMid | MarkerEnd) {
+        return Ok(None);
+    }
+    if matches!(
+        computed_styles.get(&AttrId::Stroke),
+        None | Some((
+            Attr::Stroke(Inheritable::Defined(SVGPaint::None)),
+            Mode::Static
+        ))
+    ) {
+        return Ok(Some(0.0));
+    }
+    let width = match computed_styles.get(&AttrId::StrokeWidth) {
+        None => 1.0,
+        Some((
+            Attr::StrokeWidth(Inheritable::Defined(LengthPercentage(
+                DimensionPercentage::Dimension(width),
+            ))),
+            Mode::Static,
+        )) => match width.to_px() {
+            Some(width) => width,
+            None => return Ok(None),
+        },
+        Some(_) => return Ok(None),
+    };
+    let miter = match computed_styles.get(&AttrId::StrokeMiterlimit) {
+        None => 4.0,
+        Some((Attr::StrokeMiterlimit(Inheritable::Defined(limit)), Mode::Static)) => limit,
+        Some(_) => return Ok(None),
+    };
+    Ok(Some(f64::from(width / 2.0 * miter.max(1.5))))
+}
+
 enum GatherViewboxDataError {
     ParseFloatError,
     MissingViewbox,
@@ -162,6 +229,16 @@ fn gather(element: Element) -> Result<ViewBox, GatherViewboxDataError> {
         }
     };
 
+    if let (
+        Some(LengthPercentage(DimensionPercentage::Dimension(width))),
+        Some(LengthPercentage(DimensionPercentage::Dimension(height))),
+    ) = (width.as_deref(), height.as_deref())
+        && let (Some(width), Some(height)) = (width.to_px(), height.to_px())
+        && (width * viewbox.height - height * viewbox.width).abs() > 0.01 * viewbox.width
+    {
+        // More than the viewbox is shown when the viewport has another ratio
+        return Err(GatherViewboxDataError::MissingViewbox);
+    }
     Ok((*viewbox).clone())
 }
 
-- 
2.43.0


From 688b45b88e5b30dd23b8a4443c91a2037c863ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 073/109] fix: only remove elements with neither stroke nor
 fill

---
 .../jobs/remove_useless_stroke_and_fill.rs    | 40 +++++++++----------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
index b9f9e9b..99b347b 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_useless_stroke_and_fill.rs
@@ -115,8 +115,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
         let computed_styles = ComputedStyles::default()
             .with_all(element, &context.query_has_stylesheet_result)
             .map_err(JobsError::ComputedStylesError)?;
-        self.remove_stroke(element, &computed_styles);
-        self.remove_fill(element, &computed_styles);
+        let has_no_stroke = self.remove_stroke(element, &computed_styles);
+        let has_no_fill = self.remove_fill(element, &computed_styles);
+        if self.options.remove_none && has_no_stroke && has_no_fill {
+            log::debug!("removing element with no stroke and no fill");
+            element.remove();
+        }
         Ok(())
     }
 
@@ -135,13 +139,14 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_> {
 }
 
 impl State<'_> {
+    /// Returns whether the element is known to paint no stroke
     fn remove_stroke<'input>(
         &self,
         element: Element<'input, '_>,
         computed_styles: &ComputedStyles<'input>,
-    ) {
+    ) -> bool {
         if !self.options.stroke || is_styled(element, "stroke") {
-            return;
+            return false;
         }
 
         let stroke_width = get_computed_style!(computed_styles, StrokeWidth);
@@ -159,11 +164,11 @@ impl State<'_> {
         if !is_stroke_width_zero
             && has_computed_style!(computed_styles, MarkerStart | MarkerMid | MarkerEnd) {
             log::debug!("skipping stroke removal, has marker");
-            return;
+            return false;
         }
 
         let stroke = get_computed_style!(computed_styles, Stroke);
-        let mut is_stroke_eq_none = stroke
+        let is_stroke_eq_none = stroke
             .as_ref()
             .option()
             .is_some_and(|(stroke, _)| matches!(stroke.option_ref(), Some(SVGPaint::None)));
@@ -207,27 +212,24 @@ impl State<'_> {
             {
                 log::debug!("stroke is also inherited, setting to `none`");
                 set_attribute!(element, Stroke(Inheritable::Defined(SVGPaint::None)));
-                is_stroke_eq_none = true;
             }
+            return true;
         }
-
-        if is_stroke_eq_none && self.options.remove_none {
-            log::debug!("removing element with no stroke");
-            element.remove();
-        }
+        false
     }
 
+    /// Returns whether the element is known to paint no fill
     fn remove_fill<'input>(
         &self,
         element: Element<'input, '_>,
         computed_styles: &ComputedStyles<'input>,
-    ) {
+    ) -> bool {
         if !self.options.fill || is_styled(element, "fill") {
-            return;
+            return false;
         }
 
         let fill = get_computed_style!(computed_styles, Fill);
-        let mut is_fill_eq_none = fill.as_ref().option().is_some_and(|fill| {
+        let is_fill_eq_none = fill.as_ref().option().is_some_and(|fill| {
             matches!(fill, (Inheritable::Defined(SVGPaint::None), Mode::Static))
         });
         let is_fill_none = fill
@@ -250,14 +252,10 @@ impl State<'_> {
 
             if fill.entry().is_none() || !is_fill_eq_none {
                 set_attribute!(element, Fill(Inheritable::Defined(SVGPaint::None)));
-                is_fill_eq_none = true;
             }
+            return true;
         }
-
-        if is_fill_eq_none && self.options.remove_none {
-            log::debug!("removing element with no fill");
-            element.remove();
-        }
+        false
     }
 }
 
-- 
2.43.0


From 0a093eefbd217c433d6e4929246507c5d6618003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 074/109] fix: only remove unused xlink namespaces

---
 .../oxvg_optimiser/src/jobs/remove_xlink.rs   | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index ca9e1c4..8cc82c2 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -122,7 +122,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
         element: Element<'input, 'arena>,
         _context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
+        let keep_href = !self.options.include_legacy
+            && element.qual_name().info().contains(ElementInfo::Legacy);
         element.attributes().retain(|attr| {
+            if is_prefix!(attr, XLink) {
+                return keep_href && is_attribute!(attr, XLinkHref);
+            }
             let Attr::Unparsed {
                 attr_id: AttrId::Unknown(QualName { prefix, .. }),
                 value,
@@ -130,25 +135,16 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input> {
             else {
                 return true;
             };
-            if is_prefix!(prefix, XMLNS) && value == NS::XLink.uri() {
-                return false;
+            if !is_prefix!(prefix, XMLNS) || value != NS::XLink.uri() {
+                return true;
             }
 
             self.xlink_prefix_stack.borrow_mut().pop();
-            let overridden_prefixes = self
-                .overridden_prefix_stack
-                .borrow_mut()
-                .pop()
-                .unwrap_or(false);
-            let used_in_legacy_element = self
-                .used_in_legacy_element_stack
+            self.overridden_prefix_stack.borrow_mut().pop();
+            self.used_in_legacy_element_stack
                 .borrow_mut()
                 .pop()
-                .unwrap_or(false);
-            if !self.options.include_legacy && !overridden_prefixes && !used_in_legacy_element {
-                return false;
-            }
-            true
+                .unwrap_or(false)
         });
 
         Ok(())
@@ -206,16 +202,15 @@ impl<'input> State<'_, 'input> {
         used_in_legacy_element: &mut [bool],
         include_legacy: bool,
     ) {
-        let used_in_legacy_element = used_in_legacy_element.last_mut();
-        if has_attribute!(element, Href) {
-            return;
-        }
         if !include_legacy && element.qual_name().info().contains(ElementInfo::Legacy) {
-            if let Some(value) = used_in_legacy_element {
-                *value = true;
+            if has_attribute!(element, XLinkHref) {
+                used_in_legacy_element.fill(true);
             }
             return;
         }
+        if has_attribute!(element, Href) {
+            return;
+        }
 
         let Some(href) = remove_attribute!(element, XLinkHref) else {
             return;
-- 
2.43.0


From 040b533e6db83f8d5c9f2037dac677e5809fca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 075/109] fix: keep the look of reused paths

---
 crates/oxvg_optimiser/src/jobs/reuse_paths.rs | 42 ++++++++++++++++---
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
index c0bab58..2a3c023 100644
--- a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
@@ -3,7 +3,9 @@ use std::{cell::RefCell, collections::HashSet};
 use lightningcss::{properties::svg::SVGPaint, rules::CssRuleList, visit_types};
 use oxvg_ast::{
     element::Element,
-    get_attribute, get_attribute_mut, is_element, remove_attribute, set_attribute,
+    get_attribute, get_attribute_mut, has_attribute, has_computed_style, is_element,
+    remove_attribute, set_attribute,
+    style::ComputedStyles,
     visitor::{Context, PrepareOutcome, Visitor},
 };
 use oxvg_collections::{
@@ -27,6 +29,7 @@ struct State<'input, 'arena> {
     paths: RefCell<Vec<(Key<'input>, Vec<Element<'input, 'arena>>)>>,
     defs: RefCell<Option<Element<'input, 'arena>>>,
     hrefs: RefCell<HashSet<Url<'input>>>,
+    ids: RefCell<HashSet<String>>,
 }
 
 #[cfg(feature = "wasm")]
@@ -81,10 +84,31 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
     fn element(
         &self,
         element: Element<'input, 'arena>,
-        _context: &mut Context<'input, 'arena, '_>,
+        context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
+        if let Some(id) = get_attribute!(element, Id) {
+            self.ids.borrow_mut().insert(id.0.to_string());
+        }
         match element.qual_name().unaliased() {
-            ElementId::Path => self.add_path(element),
+            ElementId::Path => {
+                // A `<use>` can't outrank the attributes of the path it references
+                let styles = ComputedStyles::default()
+                    .with_style(element, &context.query_has_stylesheet_result)
+                    .map_err(JobsError::ComputedStylesError)?;
+                let is_inlined = get_attribute!(element, Style).is_some_and(|style| {
+                    style
+                        .declarations
+                        .iter()
+                        .chain(style.important_declarations.iter())
+                        .any(|property| matches!(property.property_id().name(), "fill" | "stroke"))
+                });
+                if !is_inlined
+                    && !has_computed_style!(styles, Fill | Stroke)
+                    && !has_attribute!(element, PathLength)
+                {
+                    self.add_path(element);
+                }
+            }
             ElementId::Defs => {
                 if self.defs.borrow().is_none()
                     && element
@@ -117,7 +141,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
         element: Element<'input, 'arena>,
         context: &mut Context<'input, 'arena, '_>,
     ) -> Result<(), Self::Error> {
-        if !element.is_root() && !is_element!(element, Svg) {
+        if !element.is_root() {
             return Ok(());
         }
         let mut paths = self.paths.borrow_mut();
@@ -139,6 +163,7 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
 
         let mut index = 0;
         let hrefs = self.hrefs.borrow();
+        let ids = self.ids.borrow();
         for (_, list) in paths.iter_mut() {
             if list.len() == 1 {
                 continue;
@@ -166,6 +191,9 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
             if is_id_protected {
                 remove_attribute!(list[0], Id);
             } else {
+                while ids.contains(&format!("reuse-{index}")) {
+                    index += 1;
+                }
                 set_attribute!(
                     reusable_path,
                     Id(NonWhitespace(format!("reuse-{index}").into()))
@@ -182,7 +210,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'input, 'arena> {
                 remove_attribute!(path, Stroke);
                 remove_attribute!(path, Fill);
 
-                if path.is_empty() && defs.contains(path) {
+                if path.is_empty()
+                    && path
+                        .parent_element()
+                        .is_some_and(|parent| parent.id() == defs.id())
+                {
                     let attributes = path.attributes();
                     if attributes.is_empty() {
                         log::debug!("removing empty path");
-- 
2.43.0


From 00a5ab2339daa4e1be6d2f82d98287b1a64b05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:23 +0000
Subject: [PATCH 076/109] fix: keep vertices of paths which may inherit markers

---
 crates/oxvg_optimiser/src/jobs/convert_path_data.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_path_data.rs b/crates/oxvg_optimiser/src/jobs/convert_path_data.rs
index 895ee84..2179cb1 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_path_data.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_path_data.rs
@@ -126,8 +126,10 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ConvertPathData {
         if std::iter::successors(Some(element), Element::parent_element)
             .any(|element| has_attribute!(element, Id) && !element.is_root())
         {
-            // The element may inherit a stroke from where it's used
-            options -= optimize::Options::UnsafeStroke | optimize::Options::UnsafeStrokeLinecap;
+            // The element may inherit a stroke or markers from where it's used
+            options -= optimize::Options::UnsafeStroke
+                | optimize::Options::UnsafeStrokeLinecap
+                | optimize::Options::UnsafeMarkerMid;
         }
         let options = options & self.into();
         log::debug!("ConvertPathData::run: gained style info {options:?}");
-- 
2.43.0


From f22b392959778300626aaffcbd54be9ba2b5d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:05 +0000
Subject: [PATCH 077/109] fix: prefixIds takes its prefix from the file name
 rather than the first path component

---
 crates/oxvg_optimiser/src/jobs/prefix_ids.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
index 2f12464..69db777 100644
--- a/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/prefix_ids.rs
@@ -324,9 +324,7 @@ impl<'a> GeneratePrefix<'a> {
 }
 
 fn get_basename(path: &std::path::Path) -> Option<&str> {
-    path.components()
-        .next()
-        .and_then(|c| c.as_os_str().to_str())
+    path.file_name().and_then(|name| name.to_str())
 }
 
 #[test]
-- 
2.43.0


From 5f1d25ffb8ff9765f0f38c060b20e22d266b7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:05 +0000
Subject: [PATCH 078/109] fix: cleanupIds renames each reference once, removes
 the root's unused id, and keeps referenced numeric ids and the first of
 duplicate ids

---
 crates/oxvg_optimiser/src/jobs/cleanup_ids.rs | 130 +++++++++---------
 1 file changed, 63 insertions(+), 67 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
index f4db977..d7d2739 100644
--- a/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
+++ b/crates/oxvg_optimiser/src/jobs/cleanup_ids.rs
@@ -179,98 +179,90 @@ impl<'input, 'arena> Visitor<'input, 'arena> for State<'_, 'input, 'arena> {
     ) -> Result<(), Self::Error> {
         let remove = self.options.remove;
 
-        let Some(root) = &document.find_element() else {
-            return Ok(());
-        };
         // Generate renames for references
         let mut minified_ids = BTreeMap::new();
         let mut used_ids = HashSet::new();
         let mut generated_id = self.generated_id.borrow_mut();
+        let ref_renames = self.ref_renames.borrow();
         for RefRename {
-            element_ref,
             name,
             referenced_id,
-        } in &*self.ref_renames.borrow()
+            ..
+        } in &*ref_renames
         {
             if !self.replaceable_ids.contains(referenced_id) {
                 continue;
             }
-            let element = element_ref;
+            let minified_id: &String =
+                minified_ids
+                    .entry(referenced_id.clone())
+                    .or_insert_with(|| {
+                        let minified_id = generated_id.current.clone();
+                        generated_id.next();
+                        minified_id
+                    });
+            if !is_attribute!(name, Id) {
+                used_ids.insert(if self.options.minify {
+                    minified_id.clone()
+                } else {
+                    referenced_id.clone()
+                });
+            }
+        }
+        // Rename all of an attribute's references at once, so that none is renamed twice
+        let mut renamed = None;
+        for RefRename {
+            element_ref: element,
+            name,
+            ..
+        } in ref_renames.iter().filter(|_| self.options.minify)
+        {
+            if renamed.replace((element.id(), name)) == Some((element.id(), name)) {
+                continue;
+            }
             let Some(mut attr) = element.get_attribute_node_mut(name) else {
                 log::debug!("CleanupIds::breakdown: {name:?} attribute missing");
                 continue;
             };
             let mut value = attr.value_mut();
             value.visit_url(|reference| {
-                if !reference.starts_with('#') {
+                let Some(id) = reference.strip_prefix('#') else {
                     return;
-                }
-                if &reference[1..] != referenced_id && urlencoding::decode(&reference[1..]).ok().is_none_or(|reference| &*reference != referenced_id) {
+                };
+                let minified_id = minified_ids.get(id).or_else(|| {
+                    let id = urlencoding::decode(id).ok()?;
+                    minified_ids.get(&*id)
+                });
+                let Some(minified_id) = minified_id else {
                     return;
-                }
-                let minified_id = minified_ids
-                    .get(referenced_id)
-                    .unwrap_or(&generated_id.current)
-                    .clone();
-                let is_new = minified_ids
-                    .insert(referenced_id.clone(), minified_id.clone())
-                    .is_none();
-                if is_new {
-                    generated_id.next();
-                }
-                if !is_attribute!(name, Id) {
-                    used_ids.insert(if self.options.minify {
-                        minified_id.clone()
-                    } else {
-                        referenced_id.clone()
-                    });
-                }
-                if self.options.minify {
-                    log::debug!(
-                        "CleanupIds::breakdown: updating url reference: {name:?}({referenced_id}) <-> {minified_id}"
-                    );
-                    let minified_id = format!("#{minified_id}");
-                    match reference {
-                        Reference::Atom(str) => *str = minified_id.into(),
-                        Reference::Css(str) => *str = minified_id.into(),
-                    }
+                };
+                log::debug!(
+                    "CleanupIds::breakdown: updating url reference: {name:?}({id}) <-> {minified_id}"
+                );
+                let minified_id = format!("#{minified_id}");
+                match reference {
+                    Reference::Atom(str) => *str = minified_id.into(),
+                    Reference::Css(str) => *str = minified_id.into(),
                 }
             });
             value.visit_id(|reference| {
-                if &*reference != referenced_id {
+                let Some(minified_id) = minified_ids.get(&*reference) else {
                     return;
-                }
-                let minified_id = minified_ids
-                    .get(referenced_id)
-                    .unwrap_or(&generated_id.current)
-                    .clone();
-                let is_new = minified_ids
-                    .insert(referenced_id.clone(), minified_id.clone())
-                    .is_none();
-                if is_new {
-                    generated_id.next();
-                }
-                if !is_attribute!(name, Id) {
-                    used_ids.insert(if self.options.minify {
-                        minified_id.clone()
-                    } else {
-                        referenced_id.clone()
-                    });
-                }
-                if self.options.minify {
-                    log::debug!(
-                        "CleanupIds::breakdown: updating id reference: {name:?}({referenced_id}) <-> {minified_id}"
-                    );
-                    match reference {
-                        Reference::Atom(str) => *str = minified_id.into(),
-                        Reference::Css(str) => *str = minified_id.into(),
-                    }
+                };
+                log::debug!(
+                    "CleanupIds::breakdown: updating id reference: {name:?}({}) <-> {minified_id}",
+                    &*reference
+                );
+                let minified_id = minified_id.clone();
+                match reference {
+                    Reference::Atom(str) => *str = minified_id.into(),
+                    Reference::Css(str) => *str = minified_id.into(),
                 }
             });
         }
         log::debug!("CleanupIds::breakdown: replacing: {minified_ids:#?} <-> {used_ids:#?}");
         if remove {
-            for element in root.breadth_first() {
+            for element in document.breadth_first() {
                 element.attributes().retain(|attr| {
                     let Attr::Id(id) = attr else {
                         return true;
@@ -312,15 +304,19 @@ impl<'input, 'arena> State<'_, 'input, 'arena> {
             self.options.preserve,
             self.options.preserve_prefixes
         );
-        // Find ids
-        for element in root.breadth_first() {
+        // Find ids, where the first in document order is the one that's referenced
+        let mut unvisited: Vec<_> = root.children_iter().collect();
+        unvisited.reverse();
+        while let Some(element) = unvisited.pop() {
+            let children: Vec<_> = element.children_iter().collect();
+            unvisited.extend(children.into_iter().rev());
             element.attributes().retain(|attr| {
                 let Attr::Id(NonWhitespace(id)) = attr else {
                     return true;
                 };
                 log::debug!("CleanupIds: prepare_id: found id: {id}");
                 let id = id.to_string();
-                if self.replaceable_ids.contains(&id) || id.chars().all(char::is_numeric) {
+                if self.replaceable_ids.contains(&id) || id.is_empty() {
                     log::debug!("CleanupIds: prepare_id: removed redundant id: {id}");
                     return false;
                 }
-- 
2.43.0


From 219da554554e5773361469c2f7c80835f0fc0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:55 +0000
Subject: [PATCH 079/109] fix: honour omitted jobs without a preset and in
 camelCase

---
 crates/oxvg/src/config.rs             | 6 +++---
 crates/oxvg_optimiser/src/jobs/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg/src/config.rs b/crates/oxvg/src/config.rs
index 9ea1f34..4ab9dfb 100644
--- a/crates/oxvg/src/config.rs
+++ b/crates/oxvg/src/config.rs
@@ -67,10 +67,10 @@ impl Optimise {
     /// Creates a job configuration where the user-configured jobs extends the preset
     /// specified in `extends`
     pub fn resolve_jobs(&self) -> oxvg_optimiser::Jobs {
-        let Some(extends) = &self.extends else {
-            return self.jobs.clone();
+        let mut result = match &self.extends {
+            Some(extends) => extends.extend(&self.jobs),
+            None => self.jobs.clone(),
         };
-        let mut result = extends.extend(&self.jobs);
         if let Some(omit) = self.omit.as_ref() {
             for omit in omit {
                 result.omit(omit);
diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index daf22da..f23105c 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -261,9 +261,10 @@ macro_rules! jobs {
                 })+
             }
 
-            /// Removes a job from the config via the specified name of the field, in `snake_case`
+            /// Removes a job from the config via the specified name of the field, in `snake_case` or
+            /// `camelCase`
             pub fn omit(&mut self, name: &str) {
-                match name {
+                match Self::from_svgo_plugin_to_snake_case(name).as_str() {
                     $(stringify!($name) => self.$name = None,)+
                     _ => {}
                 }
-- 
2.43.0


From 4d03d395e8b7b9d5cc65d82aa78a0c5e588253bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:55 +0000
Subject: [PATCH 080/109] fix: --no-ignore also disregards git's exclude files

---
 crates/oxvg/src/walk.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 5422beb..234f9eb 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -149,6 +149,8 @@ impl Walk {
             .max_depth(if self.recursive { None } else { Some(1) })
             .hidden(!self.hidden)
             .git_ignore(!self.no_ignore)
+            .git_exclude(!self.no_ignore)
+            .git_global(!self.no_ignore)
             .ignore(!self.no_ignore)
             .follow_links(true)
             .threads(self.threads)
-- 
2.43.0


From 79a6c1e45d9db5759c6e0cd6be43f0377fafaca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:55 +0000
Subject: [PATCH 081/109] fix: exit with an error when a document cannot be
 optimised

---
 crates/oxvg/src/commands/optimise.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/oxvg/src/commands/optimise.rs b/crates/oxvg/src/commands/optimise.rs
index 6afc5dd..60a0a5a 100644
--- a/crates/oxvg/src/commands/optimise.rs
+++ b/crates/oxvg/src/commands/optimise.rs
@@ -1,4 +1,11 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
 
 use anyhow::anyhow;
 use oxvg_ast::{
@@ -62,10 +69,12 @@ impl Optimise {
     ///
     /// # Errors
     ///
-    /// When invalid options are given
+    /// When invalid options are given or any of the documents fail
     pub fn walk(self, jobs: Jobs) -> anyhow::Result<()> {
-        self.walk.run(move || {
+        let error = Arc::new(AtomicBool::new(false));
+        self.walk.run(|| {
             let jobs = jobs.clone();
+            let error = Arc::clone(&error);
             let format_options = Options {
                 indent: self.pretty,
                 trim_whitespace: self.space,
@@ -101,13 +110,20 @@ impl Optimise {
                         Ok(())
                     },
                 );
+                if matches!(result, Err(_) | Ok(Err(_))) {
+                    error.store(true, Ordering::Relaxed);
+                }
                 match result {
                     Err(err) => eprintln!("{err}"),
                     Ok(Err(err)) => eprintln!("{err}"),
                     Ok(Ok(())) => {}
                 }
             })
-        })
+        })?;
+        if error.load(Ordering::Relaxed) {
+            return Err(anyhow!("Failed to optimise all documents!"));
+        }
+        Ok(())
     }
 
     fn handle_config(&self, config: Config) -> anyhow::Result<Option<Config>> {
-- 
2.43.0


From aa906469dbc8c78820aff0f1e026c052955941e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:55 +0000
Subject: [PATCH 082/109] fix: write documents whole, in place with a bare
 --output, into given directories, and report failed reads and writes

---
 crates/oxvg/src/walk.rs | 59 ++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/crates/oxvg/src/walk.rs b/crates/oxvg/src/walk.rs
index 234f9eb..6e0e2e0 100644
--- a/crates/oxvg/src/walk.rs
+++ b/crates/oxvg/src/walk.rs
@@ -2,8 +2,9 @@
 //! for reading, processing, and writing SVG documents.
 use std::{
     ffi::OsStr,
-    io::{IsTerminal, Read},
+    io::{IsTerminal, Read, Write},
     path::PathBuf,
+    sync::atomic::{AtomicBool, Ordering},
 };
 
 use anyhow::anyhow;
@@ -62,20 +63,19 @@ impl Output<'_, '_, '_> {
     #[allow(clippy::cast_precision_loss)]
     pub fn output(self) -> anyhow::Result<()> {
         let is_stdin = self.input.is_none();
+        let content = self.dom.serialize_with_options(self.options)?;
         if let Some(output) = self.destination {
             if is_stdin && output.metadata().is_ok_and(|f| f.is_dir()) {
                 eprintln!("Cannot use dir as output with stdin. Printing result to stdout instead");
-                self.dom.serialize_into(std::io::stdout(), self.options)?;
+                print(&content)?;
             } else {
                 if let Some(parent) = output.parent() {
                     std::fs::create_dir_all(parent)?;
                 }
-                let file = std::fs::File::create(output)?;
-                let writer = std::io::BufWriter::new(file);
-                self.dom.serialize_into(writer, self.options)?;
+                std::fs::write(output, &content)?;
 
                 let input_kb = self.input_bytes / 1000.0;
-                let output_kb = output.metadata()?.len() as f64 / 1000.0;
+                let output_kb = content.len() as f64 / 1000.0;
                 let change = 100.0 * (input_kb - output_kb) / input_kb;
                 let increased = if change < 0.0 { "\x1b[31m" } else { "" };
                 let path = self.input.and_then(|p| p.to_str()).unwrap_or("");
@@ -86,19 +86,26 @@ impl Output<'_, '_, '_> {
                 }
             }
         } else {
-            self.dom.serialize_into(std::io::stdout(), self.options)?;
+            print(&content)?;
         }
         Ok(())
     }
 }
 
+/// Prints a whole document at once, so that those of other threads don't mix with it
+fn print(content: &str) -> std::io::Result<()> {
+    let mut stdout = std::io::stdout().lock();
+    stdout.write_all(content.as_bytes())?;
+    stdout.flush()
+}
+
 impl Walk {
     /// Start visiting the paths in parallel. `f` is called for each thread
     /// and the resulting function is called for each path.
     ///
     /// # Errors
     ///
-    /// When invalid options are passed to [`Walk`].
+    /// When invalid options are passed to [`Walk`] or any of the paths cannot be read.
     pub fn run<F: Fn() -> FnVisitor>(&self, f: F) -> anyhow::Result<()> {
         if !std::io::stdin().is_terminal()
             && self.paths.len() <= 1
@@ -115,8 +122,12 @@ impl Walk {
             ));
         }
 
+        let failed = AtomicBool::new(false);
         for path in &self.paths {
-            self.handle_path(path, &f);
+            self.handle_path(path, &f, &failed);
+        }
+        if failed.into_inner() {
+            return Err(anyhow!("Failed to read all documents!"));
         }
         Ok(())
     }
@@ -132,14 +143,20 @@ impl Walk {
         Ok(())
     }
 
-    fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F) {
+    fn handle_path<F: Fn() -> FnVisitor>(&self, path: &PathBuf, f: F, failed: &AtomicBool) {
         let output_path = |input: &PathBuf| {
-            let Some(output) = self.output.as_ref().and_then(|output| output.first()) else {
+            let Some(output) = &self.output else {
                 return Ok(None);
             };
+            let Some(output) = output.first() else {
+                return Ok(Some(input.clone()));
+            };
             input.strip_prefix(path).map(|p| {
                 Some(if p.as_os_str().is_empty() {
-                    output.clone()
+                    match input.file_name() {
+                        Some(name) if output.is_dir() => output.join(name),
+                        _ => output.clone(),
+                    }
                 } else {
                     output.join(p)
                 })
@@ -158,8 +175,13 @@ impl Walk {
             .run(|| {
                 let mut visitor = f();
                 Box::new(move |path| {
-                    let Ok(path) = path else {
-                        return WalkState::Continue;
+                    let path = match path {
+                        Ok(path) => path,
+                        Err(err) => {
+                            eprintln!("{err}");
+                            failed.store(true, Ordering::Relaxed);
+                            return WalkState::Continue;
+                        }
                     };
                     if path.file_type().is_none_or(|f| !f.is_file()) {
                         return WalkState::Continue;
@@ -171,8 +193,13 @@ impl Walk {
                     let Ok(output_path) = output_path(&path) else {
                         return WalkState::Continue;
                     };
-                    let Ok(file) = std::fs::read_to_string(path.clone()) else {
-                        return WalkState::Continue;
+                    let file = match std::fs::read_to_string(path.clone()) {
+                        Ok(file) => file,
+                        Err(err) => {
+                            eprintln!("{}: {err}", path.display());
+                            failed.store(true, Ordering::Relaxed);
+                            return WalkState::Continue;
+                        }
                     };
                     visitor(&file, Some(&path), output_path.as_ref());
                     WalkState::Continue
-- 
2.43.0


From a211e71858dd19f9e91f2eaf1bbf79c979d6edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:57 +0000
Subject: [PATCH 083/109] fix: read removeXlink's options in camelCase

---
 crates/oxvg_optimiser/src/jobs/remove_xlink.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
index 8cc82c2..c5d4d4c 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_xlink.rs
@@ -24,6 +24,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Clone, Debug, Default)]
+#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
 /// Replaces `xlink` prefixed attributes to the native SVG equivalent.
 ///
 /// # Correctness
@@ -36,7 +37,10 @@ use crate::error::JobsError;
 ///
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveXlink {
-    #[cfg_attr(feature = "serde", serde(default = "bool::default"))]
+    #[cfg_attr(
+        feature = "serde",
+        serde(default = "bool::default", alias = "include_legacy")
+    )]
     /// Whether to also convert xlink attributes for legacy elements which don't
     /// support the SVG 2 `href` attribute (e.g. `<cursor>`).
     ///
-- 
2.43.0


From 5d9a1801be59074b5737168f2ca2ab6a5deacd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:57 +0000
Subject: [PATCH 084/109] fix: convert removeUseless and makeArcs of SVGO
 configs fully

---
 crates/oxvg_optimiser/src/jobs/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/mod.rs b/crates/oxvg_optimiser/src/jobs/mod.rs
index f23105c..8a5212b 100644
--- a/crates/oxvg_optimiser/src/jobs/mod.rs
+++ b/crates/oxvg_optimiser/src/jobs/mod.rs
@@ -177,10 +177,10 @@ macro_rules! jobs {
                                         convert_path_data.tolerance.precision = params.remove("floatPrecision").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.tolerance.precision);
                                         convert_path_data.close_segments = params.remove("convertToZ").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.close_segments);
                                         convert_path_data.join_nodes = params.remove("collapseRepeated").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.join_nodes);
-                                        convert_path_data.remove_empty_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_empty_segments);
+                                        convert_path_data.remove_empty_segments = params.get("removeUseless").cloned().map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_empty_segments);
                                         convert_path_data.remove_zero_segments = params.remove("removeUseless").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.remove_zero_segments);
                                         convert_path_data.straight_curves = params.remove("straightCurves").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.straight_curves);
-                                        convert_path_data.arc_curves = make_arcs.is_some();
+                                        convert_path_data.arc_curves = matches!(make_arcs, Some(serde_json::Value::Object(_)));
                                         convert_path_data.smart_arc_rounding = params.remove("smartArcRounding").map(serde_json::from_value).and_then(Result::ok).unwrap_or(convert_path_data.smart_arc_rounding);
                                         oxvg_config.convert_path_data = Some(convert_path_data);
 
-- 
2.43.0


From 37b8ac42490583aed4235bc572111d02ac022b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:57 +0000
Subject: [PATCH 085/109] fix: jobs which are switches are on by default, as
 when named by an SVGO config

---
 .../oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_dimensions.rs       | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_raster_images.rs    | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_scripts.rs          | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_style_element.rs    | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs        | 8 +++++++-
 crates/oxvg_optimiser/src/jobs/reuse_paths.rs             | 8 +++++++-
 8 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
index 982d7af..a6e8328 100644
--- a/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
+++ b/crates/oxvg_optimiser/src/jobs/convert_one_stop_gradients.rs
@@ -38,7 +38,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Converts `linearGradient` and `radialGradient` nodes that are a solid colour
 /// to the equivalent colour.
@@ -50,6 +50,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct ConvertOneStopGradients(pub bool);
 
+impl Default for ConvertOneStopGradients {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 #[derive(Default)]
 struct State<'input, 'arena> {
     /// Parent defs with removed gradients
diff --git a/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs b/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
index 71370da..22e2200 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_dimensions.rs
@@ -16,7 +16,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes `width` and `height` from the `<svg>` and replaces it with `viewBox` if missing.
 ///
@@ -35,6 +35,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveDimensions(pub bool);
 
+impl Default for RemoveDimensions {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveDimensions {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
index 42f2f51..9759390 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_off_canvas_paths.rs
@@ -27,7 +27,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Clone, Default, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// For SVGs with a `viewBox` attribute, removes `<path>` element outside of it's bounds.
 ///
@@ -44,6 +44,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveOffCanvasPaths(pub bool);
 
+impl Default for RemoveOffCanvasPaths {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 struct State {
     view_box_data: RefCell<Option<ViewBox>>,
 }
diff --git a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
index 7b8847f..b353fb1 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_raster_images.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes inline JPEGs, PNGs, and GIFs from the document.
 ///
@@ -29,6 +29,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveRasterImages(pub bool);
 
+impl Default for RemoveRasterImages {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveRasterImages {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
index b8ef5a8..721ea67 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_scripts.rs
@@ -18,7 +18,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes `<script>` elements, event attributes, and javascript `href`s from the document.
 ///
@@ -37,6 +37,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveScripts(pub bool);
 
+impl Default for RemoveScripts {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveScripts {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_style_element.rs b/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
index 450d1c5..231d3c6 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_style_element.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes all `<style>` elements from the document.
 ///
@@ -29,6 +29,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveStyleElement(pub bool);
 
+impl Default for RemoveStyleElement {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveStyleElement {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs b/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
index 23fecfc..4f9917e 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_x_m_l_n_s.rs
@@ -14,7 +14,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Clone, Default, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// Removes the `xmlns` attribute from `<svg>`.
 ///
@@ -33,6 +33,12 @@ use crate::error::JobsError;
 /// If this job produces an error or panic, please raise an [issue](https://github.com/noahbald/oxvg/issues)
 pub struct RemoveXMLNS(pub bool);
 
+impl Default for RemoveXMLNS {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for RemoveXMLNS {
     type Error = JobsError<'input>;
 
diff --git a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
index 2a3c023..94f4a34 100644
--- a/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/reuse_paths.rs
@@ -40,7 +40,7 @@ use crate::error::JobsError;
 #[cfg_attr(feature = "wasm", derive(Tsify))]
 #[cfg_attr(feature = "napi", napi(object))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-#[derive(Default, Clone, Debug)]
+#[derive(Clone, Debug)]
 #[cfg_attr(feature = "serde", serde(transparent))]
 /// For duplicate `<path>` elements, replaces it with a `<use>` that references a single
 /// `<path>` definition.
@@ -54,6 +54,12 @@ use crate::error::JobsError;
 /// If a path has an invalid id.
 pub struct ReusePaths(pub bool);
 
+impl Default for ReusePaths {
+    fn default() -> Self {
+        Self(true)
+    }
+}
+
 impl<'input, 'arena> Visitor<'input, 'arena> for ReusePaths {
     type Error = JobsError<'input>;
 
-- 
2.43.0


From a5f67b87befcfbf0a20cabfcde72f163e72375fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:53 +0000
Subject: [PATCH 086/109] fix: report unused ids and namespaces in a stable
 order

---
 crates/oxvg_lint/src/rules/no_unused_ids.rs   | 22 +++++++-------
 crates/oxvg_lint/src/rules/no_unused_xmlns.rs | 29 ++++++++-----------
 2 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/crates/oxvg_lint/src/rules/no_unused_ids.rs b/crates/oxvg_lint/src/rules/no_unused_ids.rs
index 4eea702..9f5b69d 100644
--- a/crates/oxvg_lint/src/rules/no_unused_ids.rs
+++ b/crates/oxvg_lint/src/rules/no_unused_ids.rs
@@ -14,17 +14,17 @@ pub fn no_unused_ids<'a, 'input>(
     referenced_ids: &'a HashSet<String>,
     severity: Severity,
 ) {
-    reports.par_extend(ids.par_iter().filter_map(move |(id, ranges)| {
-        if referenced_ids.contains(id.as_str()) {
-            None
-        } else {
-            Some(Error {
-                problem: Problem::UnreferencedId(id.clone()),
-                severity,
-                range: ranges.as_ref().map(|ranges| ranges.value.clone()),
-                help: None,
-            })
-        }
+    let mut unused: Vec<_> = ids
+        .par_iter()
+        .filter(|(id, _)| !referenced_ids.contains(id.as_str()))
+        .collect();
+    // Iteration order is arbitrary, so report in the order of the document
+    unused.sort_by_key(|(id, ranges)| (ranges.as_ref().map(|r| r.value.start), id.as_str()));
+    reports.extend(unused.into_iter().map(|(id, ranges)| Error {
+        problem: Problem::UnreferencedId(id.clone()),
+        severity,
+        range: ranges.as_ref().map(|ranges| ranges.value.clone()),
+        help: None,
     }));
 }
 
diff --git a/crates/oxvg_lint/src/rules/no_unused_xmlns.rs b/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
index c4b1d51..931048b 100644
--- a/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
+++ b/crates/oxvg_lint/src/rules/no_unused_xmlns.rs
@@ -1,7 +1,6 @@
 use std::{collections::HashSet, ops::Range};
 
 use oxvg_collections::atom::Atom;
-use rayon::prelude::*;
 
 use crate::error::{Error, Problem};
 
@@ -14,22 +13,18 @@ pub fn no_unused_xmlns<'input>(
     severity: Severity,
 ) {
     let range = range.map(|r| r.start..r.start);
-    reports.par_extend(
-        xmlns_set
-            .par_drain()
-            .filter_map(move |(prefix, uri, is_used)| {
-                if is_used {
-                    None
-                } else {
-                    Some(Error {
-                        problem: Problem::UnreferencedXMLNS(prefix, uri),
-                        severity,
-                        range: range.clone(),
-                        help: None,
-                    })
-                }
-            }),
-    );
+    let mut unused: Vec<_> = xmlns_set
+        .drain()
+        .filter(|(_, _, is_used)| !is_used)
+        .collect();
+    // Iteration order is arbitrary, so report in a stable order
+    unused.sort();
+    reports.extend(unused.into_iter().map(|(prefix, uri, _)| Error {
+        problem: Problem::UnreferencedXMLNS(prefix, uri),
+        severity,
+        range: range.clone(),
+        help: None,
+    }));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6ad1eb1cf8d95d3405f745ad43a6b82d5da2479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:53 +0000
Subject: [PATCH 087/109] fix: count selectors' ids as used and mark only the
 nearest namespace declaration

---
 crates/oxvg_lint/src/rules/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_lint/src/rules/mod.rs b/crates/oxvg_lint/src/rules/mod.rs
index a016456..c0a6662 100644
--- a/crates/oxvg_lint/src/rules/mod.rs
+++ b/crates/oxvg_lint/src/rules/mod.rs
@@ -5,7 +5,7 @@ use std::{
     ops::Range,
 };
 
-use lightningcss::visitor::Visit as _;
+use lightningcss::{selector::Component, visitor::Visit as _};
 use oxvg_ast::{
     element::Element,
     node::Ranges,
@@ -220,7 +220,30 @@ impl<'i> lightningcss::visitor::Visitor<'i> for Reporter<'_, '_> {
     type Error = ();
 
     fn visit_types(&self) -> lightningcss::visitor::VisitTypes {
-        lightningcss::visit_types!(URLS)
+        lightningcss::visit_types!(URLS | SELECTORS)
+    }
+    fn visit_selector(
+        &mut self,
+        selector: &mut lightningcss::selector::Selector<'i>,
+    ) -> Result<(), Self::Error> {
+        for component in selector.iter_mut_raw_match_order() {
+            match component {
+                Component::ID(id) => {
+                    self.referenced_ids.borrow_mut().insert(id.to_string());
+                }
+                Component::Negation(selectors)
+                | Component::Is(selectors)
+                | Component::Where(selectors)
+                | Component::Has(selectors)
+                | Component::Any(_, selectors) => {
+                    for selector in selectors.iter_mut() {
+                        self.visit_selector(selector)?;
+                    }
+                }
+                _ => {}
+            }
+        }
+        Ok(())
     }
     fn visit_url(
         &mut self,
@@ -290,6 +313,7 @@ impl<'input> Reporter<'_, 'input> {
                 } else if let Some(mut xmlns) = set.take(&not_used_group) {
                     xmlns.2 = true;
                     set.insert(xmlns);
+                    break;
                 }
             }
         };
-- 
2.43.0


From 16394fa754e830272f87ecd106a45d7757ab99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:53 +0000
Subject: [PATCH 088/109] fix: keep the range of an invalid path within its
 attribute

---
 crates/oxvg_lint/src/rules/no_invalid_attributes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oxvg_lint/src/rules/no_invalid_attributes.rs b/crates/oxvg_lint/src/rules/no_invalid_attributes.rs
index 9b3aebb..bed8ef4 100644
--- a/crates/oxvg_lint/src/rules/no_invalid_attributes.rs
+++ b/crates/oxvg_lint/src/rules/no_invalid_attributes.rs
@@ -40,9 +40,11 @@ pub fn no_invalid_attributes(
                     attribute: attr_id.clone(),
                 },
                 severity,
-                range: attribute_ranges
-                    .get(attr_id)
-                    .map(|r| (r.value.end - unparsed.len())..r.value.end),
+                // NOTE: the value may be longer than its source when it uses entities
+                range: attribute_ranges.get(attr_id).map(|r| {
+                    let start = r.value.end.saturating_sub(unparsed.len());
+                    start.max(r.value.start)..r.value.end
+                }),
                 help: Some("The path could not be fully parsed".to_string()),
             }),
             _ => None,
-- 
2.43.0


From 9c431dca71d49926fcaec2dc7ef364e6d0e82d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:53 +0000
Subject: [PATCH 089/109] fix: defaults of percentages are fractions

---
 crates/oxvg_collections/src/attribute.rs | 26 ++++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/oxvg_collections/src/attribute.rs b/crates/oxvg_collections/src/attribute.rs
index 69f4241..d94447a 100644
--- a/crates/oxvg_collections/src/attribute.rs
+++ b/crates/oxvg_collections/src/attribute.rs
@@ -885,7 +885,7 @@ define_attrs! {
     },
     CXRadialGradient(LengthPercentage) {
         name: "cx",
-        default: LengthPercentage::px(50.0),
+        default: LengthPercentage::Percentage(Percentage(0.5)),
     },
     CYGeometry(LengthPercentage) {
         name: "cy",
@@ -893,7 +893,7 @@ define_attrs! {
     },
     CYRadialGradient(LengthPercentage) {
         name: "cy",
-        default: LengthPercentage::px(50.0),
+        default: LengthPercentage::Percentage(Percentage(0.5)),
     },
     D(Path<'input>) {
         name: "d",
@@ -1060,7 +1060,7 @@ define_attrs! {
     },
     HeightFilter(LengthPercentage) {
         name: "height",
-        default: LengthPercentage::Percentage(Percentage(120.0)),
+        default: LengthPercentage::Percentage(Percentage(1.2)),
     },
     HeightForeignObject(LengthPercentage) {
         name: "height",
@@ -1092,7 +1092,7 @@ define_attrs! {
     },
     HeightMask(LengthPercentage) {
         name: "height",
-        default: LengthPercentage::Percentage(Percentage(120.0)),
+        default: LengthPercentage::Percentage(Percentage(1.2)),
     },
     HorizAdvX(Number) {
         name: "horiz-adv-x",
@@ -1723,7 +1723,7 @@ define_attrs! {
     },
     RRadialGradient(LengthPercentage) {
         name: "r",
-        default: LengthPercentage::Percentage(Percentage(50.0)),
+        default: LengthPercentage::Percentage(Percentage(0.5)),
     },
     Scale(Number) {
         name: "scale",
@@ -1963,7 +1963,7 @@ define_attrs! {
     },
     WidthFilter(LengthPercentage) {
         name: "width",
-        default: LengthPercentage::Percentage(Percentage(120.0)),
+        default: LengthPercentage::Percentage(Percentage(1.2)),
     },
     WidthForeignObject(LengthPercentage) {
         name: "width",
@@ -1995,7 +1995,7 @@ define_attrs! {
     },
     WidthMask(LengthPercentage) {
         name: "width",
-        default: LengthPercentage::Percentage(Percentage(120.0)),
+        default: LengthPercentage::Percentage(Percentage(1.2)),
     },
     Widths(Anything<'input>) {
         name: "widths",
@@ -2025,7 +2025,7 @@ define_attrs! {
     },
     XFilter(LengthPercentage) {
         name: "x",
-        default: LengthPercentage::Percentage(Percentage(-10.0)),
+        default: LengthPercentage::Percentage(Percentage(-0.1)),
     },
     XGeometry(LengthPercentage) {
         name: "x",
@@ -2043,7 +2043,7 @@ define_attrs! {
     },
     XMask(LengthPercentage) {
         name: "x",
-        default: LengthPercentage::Percentage(Percentage(-10.0)),
+        default: LengthPercentage::Percentage(Percentage(-0.1)),
     },
     XPattern(LengthPercentage) {
         name: "x",
@@ -2077,7 +2077,7 @@ define_attrs! {
     },
     X2LinearGradient(LengthPercentage) {
         name: "x2",
-        default: LengthPercentage::Percentage(Percentage(100.0)),
+        default: LengthPercentage::Percentage(Percentage(1.0)),
     },
     XChannelSelector(ChannelSelector) {
         name: "xChannelSelector",
@@ -2164,7 +2164,7 @@ define_attrs! {
     },
     YFilter(LengthPercentage) {
         name: "y",
-        default: LengthPercentage::Percentage(Percentage(-10.0)),
+        default: LengthPercentage::Percentage(Percentage(-0.1)),
     },
     YGeometry(LengthPercentage) {
         name: "y",
@@ -2181,7 +2181,7 @@ define_attrs! {
     },
     YMask(LengthPercentage) {
         name: "y",
-        default: LengthPercentage::Percentage(Percentage(-10.0)),
+        default: LengthPercentage::Percentage(Percentage(-0.1)),
     },
     YPattern(LengthPercentage) {
         name: "y",
@@ -2203,7 +2203,7 @@ define_attrs! {
     },
     Y1LinearGradient(LengthPercentage) {
         name: "y1",
-        default: LengthPercentage::Percentage(Percentage(-10.0)),
+        default: LengthPercentage::Percentage(Percentage(0.0)),
     },
     Y2Line(LengthPercentage) {
         name: "y2",
-- 
2.43.0


From 19386e39a4a22b8c1a9dcb57988bd5b0284b91da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:53 +0000
Subject: [PATCH 090/109] fix: lint check follows --level and --config

---
 crates/oxvg/src/commands/lint.rs | 56 +++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg/src/commands/lint.rs b/crates/oxvg/src/commands/lint.rs
index 650aed0..ef2d902 100644
--- a/crates/oxvg/src/commands/lint.rs
+++ b/crates/oxvg/src/commands/lint.rs
@@ -1,4 +1,13 @@
-use std::{future, path::PathBuf};
+use std::{
+    future,
+    path::PathBuf,
+    sync::{
+        Arc,
+        atomic::{AtomicBool, Ordering},
+    },
+};
+
+use anyhow::anyhow;
 
 use clap::Subcommand;
 use oxvg_lint::{Rules, Severity, error::LintingError};
@@ -20,26 +29,55 @@ pub struct Check {
 }
 impl RunCommand for Check {
     fn run(self, config: Config) -> impl Future<Output = anyhow::Result<()>> + Send {
-        future::ready(self.walk(&config.lint.unwrap_or_else(Rules::recommended)))
+        let rules = match resolve_rules(self.config.as_ref(), config) {
+            Ok(rules) => rules,
+            Err(err) => return future::ready(Err(err)),
+        };
+        future::ready(self.walk(&rules))
     }
 }
 impl Check {
     fn walk(mut self, rules: &Rules) -> anyhow::Result<()> {
         self.walk.output = None;
+        let level = self.level;
+        let failed = Arc::new(AtomicBool::new(false));
         self.walk.run(|| {
             let rules = rules.clone();
+            let failed = Arc::clone(&failed);
             Box::new(move |source, path, _| {
-                let result = rules.lint_with_path(source, path);
-                match result {
-                    Err(LintingError::Reported { .. }) => {}
-                    Err(err) => eprintln!("{err}"),
-                    _ => {}
+                let is_failure = match rules.lint_with_path(source, path) {
+                    Ok(()) => false,
+                    Err(LintingError::Reported { errors, warnings }) => match level {
+                        Severity::Off => false,
+                        Severity::Warn => errors + warnings > 0,
+                        Severity::Error => errors > 0,
+                    },
+                    Err(err) => {
+                        eprintln!("{err}");
+                        true
+                    }
+                };
+                if is_failure {
+                    failed.store(true, Ordering::Relaxed);
                 }
             })
-        })
+        })?;
+        if failed.load(Ordering::Relaxed) {
+            return Err(anyhow!("Problems were found!"));
+        }
+        Ok(())
     }
 }
 
+/// Uses the rules from the specified config, when there is one, over those of the current config
+fn resolve_rules(path: Option<&Vec<PathBuf>>, config: Config) -> anyhow::Result<Rules> {
+    let config = match path.and_then(|path| path.first()) {
+        Some(path) => serde_json::from_reader(std::fs::File::open(path)?)?,
+        None => config,
+    };
+    Ok(config.lint.unwrap_or_else(Rules::recommended))
+}
+
 #[derive(clap::Args, Debug)]
 pub struct Serve {
     /// A path to the specified config.
@@ -48,7 +86,7 @@ pub struct Serve {
 }
 impl RunCommand for Serve {
     async fn run(self, config: Config) -> anyhow::Result<()> {
-        lsp::serve(config.lint.unwrap_or_else(Rules::recommended)).await;
+        lsp::serve(resolve_rules(self.config.as_ref(), config)?).await;
         Ok(())
     }
 }
-- 
2.43.0


From 0c1349d1a856a6f71ae72eea2adface23670754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:53 +0000
Subject: [PATCH 091/109] fix: lint server clears diagnostics and counts UTF-16
 characters

---
 crates/oxvg/src/commands/lint/lsp.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg/src/commands/lint/lsp.rs b/crates/oxvg/src/commands/lint/lsp.rs
index 74e4fbc..1681584 100644
--- a/crates/oxvg/src/commands/lint/lsp.rs
+++ b/crates/oxvg/src/commands/lint/lsp.rs
@@ -21,6 +21,13 @@ struct Backend {
 
 static NAME: &str = "oxvg lint";
 
+/// Finds the position of an offset, of which the character is counted in UTF-16 code units
+fn to_position(cursor: usize, source: &str) -> Position {
+    let (line, col) = Ranges::to_line_and_col(cursor, source.as_bytes());
+    let character = source[cursor - col..cursor].encode_utf16().count();
+    Position::new(line as u32, character as u32)
+}
+
 fn error_to_diagnostic(
     Error {
         problem,
@@ -33,11 +40,9 @@ fn error_to_diagnostic(
 ) -> Diagnostic {
     let range = match range {
         Some(range) => {
-            let start = Ranges::to_line_and_col(range.start, source.as_bytes());
-            let end = Ranges::to_line_and_col(range.end, source.as_bytes());
             Range {
-                start: Position::new(start.0 as u32, start.1 as u32),
-                end: Position::new(end.0 as u32, end.1 as u32),
+                start: to_position(range.start, source),
+                end: to_position(range.end, source),
             }
         }
         None => Range::default(),
@@ -84,7 +89,7 @@ impl Backend {
 
     async fn lint(&self, uri: &Uri, source: &str) {
         let uri = uri.clone();
-        let Ok(Err(diagnostics)) = parse_with_options(
+        let Ok(result) = parse_with_options(
             source,
             ParsingOptions {
                 allow_dtd: true,
@@ -94,6 +99,8 @@ impl Backend {
         ) else {
             return;
         };
+        // Without any problems, those previously reported must still be cleared
+        let diagnostics = result.err().unwrap_or_default();
 
         let result = PublishDiagnosticsParams {
             uri,
-- 
2.43.0


From 9d642ac8effe43352e0b8dd70189a80d2c7ed5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:07 +0000
Subject: [PATCH 092/109] fix: keep selections made after deselecting

---
 crates/oxvg_actions/src/effects.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b45badd..b045866 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -63,6 +63,7 @@ impl<'input> Actor<'input, '_> {
         if selections.list.is_empty() {
             state_selections.remove_attribute(&create_oxvg_attr_id(StateElement::SELECTION_IDS));
             state_selections.remove();
+            self.state.selection = None;
             return Ok(());
         }
 
-- 
2.43.0


From 318eee12a299905db755cf14e42faa7424f8ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:07 +0000
Subject: [PATCH 093/109] fix: select each node once and never the embedded
 state

---
 crates/oxvg_actions/src/actions/state.rs | 35 ++++++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/oxvg_actions/src/actions/state.rs b/crates/oxvg_actions/src/actions/state.rs
index 2a5e649..793906f 100644
--- a/crates/oxvg_actions/src/actions/state.rs
+++ b/crates/oxvg_actions/src/actions/state.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use oxvg_collections::{
     attribute::{
         AttrId,
@@ -68,8 +70,11 @@ impl<'input> Actor<'input, '_> {
         self.effect_history(&Action::SelectMore(query.to_string().into()));
 
         let mut selections = self.get_selections_list()?.unwrap_or_default();
-        let new_selections = self.select_internal(query)?;
-        selections.list.extend(new_selections.list);
+        for id in self.select_internal(query)?.list {
+            if !selections.list.contains(&id) {
+                selections.list.push(id);
+            }
+        }
 
         self.effect_selection(&selections)
     }
@@ -91,19 +96,31 @@ impl<'input> Actor<'input, '_> {
     fn select_internal(
         &mut self,
         query: &str,
-    ) -> Result<ListOf<Integer, SpaceOrComma>, Error<'static>> {
+    ) -> Result<ListOf<Integer, SpaceOrComma>, Error<'input>> {
         if query.chars().next().is_some_and(|c| c.is_ascii_digit()) {
-            ListOf::parse_string(query).map_err(|err| Error::ParseError(err.to_string()))
+            let mut selections: ListOf<Integer, SpaceOrComma> = ListOf::parse_string(query)
+                .map_err(|err| Error::ParseError(err.to_string()))?;
+            let mut seen = HashSet::new();
+            selections.list.retain(|id| seen.insert(*id));
+            Ok(selections)
         } else {
             let Some(root) = self.root.element() else {
                 return Err(Error::NoRootElement);
             };
-            let elements = root
+            // The state isn't something to be selected
+            let state_parent = self.state.state.parent_element();
+            self.state.state.remove();
+            let selections = root
                 .select(query)
-                .map_err(|_| Error::InvalidSelector(query.to_string()))?;
-
-            #[allow(clippy::cast_possible_wrap)]
-            Ok(elements.map(|e| e.id() as Integer).collect())
+                .map_err(|_| Error::InvalidSelector(query.to_string()))
+                .map(|elements| {
+                    #[allow(clippy::cast_possible_wrap)]
+                    elements.map(|e| e.id() as Integer).collect()
+                });
+            if let Some(parent) = state_parent {
+                parent.append_child(*self.state.state);
+            }
+            selections
         }
     }
 }
-- 
2.43.0


From 14d78e240a982b33d95bb0b3a70c2b240df85b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:07 +0000
Subject: [PATCH 094/109] fix: leave the state out of documents once it's
 forgotten

---
 crates/oxvg_actions/src/effects.rs | 1 +
 crates/oxvg_actions/src/state.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/effects.rs b/crates/oxvg_actions/src/effects.rs
index b045866..2b8d494 100644
--- a/crates/oxvg_actions/src/effects.rs
+++ b/crates/oxvg_actions/src/effects.rs
@@ -30,6 +30,7 @@ impl<'input> Actor<'input, '_> {
         match effect {
             StateEffect::Remove => {
                 self.state.state.remove();
+                self.state.forgotten = true;
                 Ok(())
             }
             StateEffect::Embed => self.state.embed(self.root),
diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index a181c5e..fd796e0 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -35,6 +35,8 @@ pub(crate) struct State<'input, 'arena> {
     pub history: Option<Element<'input, 'arena>>,
     // TODO: pub ui: Vec<UIAction>,
     pub selection: Option<Element<'input, 'arena>>,
+    /// Whether the state is to be left out of the document until the next action
+    pub forgotten: bool,
     // TODO: pub clipboard: Option<Element<'input, 'arena>>,
 }
 
@@ -92,6 +94,7 @@ impl<'input, 'arena> State<'input, 'arena> {
             state: state_element,
             history: None,
             selection: None,
+            forgotten: false,
         };
 
         state_element.remove();
@@ -103,7 +106,7 @@ impl<'input, 'arena> State<'input, 'arena> {
     }
 
     pub fn embed(&mut self, root: Ref<'input, 'arena>) -> Result<(), Error<'input>> {
-        if self.history.is_none() && self.selection.is_none() {
+        if self.forgotten || (self.history.is_none() && self.selection.is_none()) {
             return Ok(());
         }
 
@@ -151,6 +154,7 @@ impl<'input, 'arena> State<'input, 'arena> {
     }
 
     pub fn record(&mut self, action: &Action<'input>, allocator: &Allocator<'input, 'arena>) {
+        self.forgotten = false;
         let history = self.get_history(allocator);
         action.embed(history, allocator);
     }
-- 
2.43.0


From f34e23088c384a409735231e02614af1afb7979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:08 +0000
Subject: [PATCH 095/109] fix: read insertions from the history and only insert
 what is permitted

---
 crates/oxvg_actions/src/actions/structure/creation.rs | 4 ++++
 crates/oxvg_actions/src/state.rs                      | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/crates/oxvg_actions/src/actions/structure/creation.rs b/crates/oxvg_actions/src/actions/structure/creation.rs
index 903dbf8..77754c2 100644
--- a/crates/oxvg_actions/src/actions/structure/creation.rs
+++ b/crates/oxvg_actions/src/actions/structure/creation.rs
@@ -43,7 +43,11 @@ impl<'input> Actor<'input, '_> {
             .into_iter()
             .filter_map(|s| self.allocator.get(s as usize))
             .filter_map(Node::element)
+            .filter(|e| e.qual_name().is_permitted_child(&element))
             .collect::<Vec<_>>();
+        if selections.is_empty() {
+            return Ok(());
+        }
         let mut new_elements = Vec::with_capacity(selections.len());
         for selected in selections {
             let element = document.create_element(element.clone(), &self.allocator);
diff --git a/crates/oxvg_actions/src/state.rs b/crates/oxvg_actions/src/state.rs
index fd796e0..1d158c8 100644
--- a/crates/oxvg_actions/src/state.rs
+++ b/crates/oxvg_actions/src/state.rs
@@ -378,6 +378,12 @@ impl<'input> Action<'input> {
                 };
                 Ok(Self::SkewY(y))
             }
+            Self::INSERT => {
+                let Some(name) = args.next().transpose()? else {
+                    return Err(Error::MissingStateAttribute(Self::ARG));
+                };
+                Ok(Self::Insert(name))
+            }
             Self::FORGET => Ok(Self::Forget),
             Self::SELECT => {
                 let Some(string) = args.next().transpose()? else {
-- 
2.43.0


From 9391c4ae3aaf2263153a73f7b5ddae713035e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:08 +0000
Subject: [PATCH 096/109] fix: set attributes and transforms only on elements
 that take them

---
 crates/oxvg_actions/src/actions/manipulate.rs | 7 ++++++-
 crates/oxvg_actions/src/actions/transform.rs  | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/oxvg_actions/src/actions/manipulate.rs b/crates/oxvg_actions/src/actions/manipulate.rs
index 5eafa09..5911bdb 100644
--- a/crates/oxvg_actions/src/actions/manipulate.rs
+++ b/crates/oxvg_actions/src/actions/manipulate.rs
@@ -36,8 +36,13 @@ impl<'input> Actor<'input, '_> {
             let Some(element) = node.element() else {
                 continue;
             };
+            if name.matches(':').count() > 1 {
+                continue;
+            }
             let attr = element.parse_attr_id(name);
-            if matches!(attr, AttrId::Unknown(_)) {
+            if matches!(attr, AttrId::Unknown(_))
+                || !element.qual_name().is_permitted_attribute(&attr)
+            {
                 continue;
             }
 
diff --git a/crates/oxvg_actions/src/actions/transform.rs b/crates/oxvg_actions/src/actions/transform.rs
index 64fed81..5d025b8 100644
--- a/crates/oxvg_actions/src/actions/transform.rs
+++ b/crates/oxvg_actions/src/actions/transform.rs
@@ -124,7 +124,10 @@ impl<'input> Actor<'input, '_> {
             let Some(element) = node.element() else {
                 continue;
             };
-            if !element.qual_name().is_permitted_attribute(&AttrId::Style) {
+            if !element
+                .qual_name()
+                .is_permitted_attribute(&AttrId::Transform)
+            {
                 continue;
             }
             if let Some(transform_list) = get_attribute_mut!(element, Transform)
-- 
2.43.0


From 36584417e899b5ae3e92c4a7223049325cdbd365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:08 +0000
Subject: [PATCH 097/109] fix: merge paths in document order and leave a single
 path alone

---
 crates/oxvg_actions/src/actions/manipulate/path.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_actions/src/actions/manipulate/path.rs b/crates/oxvg_actions/src/actions/manipulate/path.rs
index b0d1683..7b3d277 100644
--- a/crates/oxvg_actions/src/actions/manipulate/path.rs
+++ b/crates/oxvg_actions/src/actions/manipulate/path.rs
@@ -93,12 +93,18 @@ impl<'input> Actor<'input, '_> {
         let mut previous_element: Option<Element> = None;
         let styles: Vec<_> = style::root(root).collect();
         #[allow(clippy::cast_sign_loss)]
-        let paths: Vec<_> = selections
+        let mut paths: Vec<_> = selections
             .iter()
             .filter_map(|s| self.allocator.get(*s as usize))
             .filter_map(oxvg_ast::node::Node::element)
             .filter(|e| !e.has_child_nodes() && is_element!(e, Path) && has_attribute!(e, D))
             .collect();
+        // The front-most element is the last of the document
+        paths.sort_by_key(|e| e.id());
+        if let [path] = paths.as_slice() {
+            #[allow(clippy::cast_possible_wrap)]
+            return Ok(Some(path.id() as Integer));
+        }
         for path in paths {
             let d = get_attribute!(path, D).unwrap();
             let segment_path = segment::Path::from_svg(&d, &Tolerance::default());
-- 
2.43.0


From 4476fb433f30f58632f5f8f81fab286b7fcbc822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:08 +0000
Subject: [PATCH 098/109] fix: tell the text common to the selection and skip
 selected non-elements

---
 crates/oxvg_actions/src/actions.rs | 17 +++++++++++++++--
 crates/oxvg_actions/src/info.rs    | 19 ++++++++-----------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/crates/oxvg_actions/src/actions.rs b/crates/oxvg_actions/src/actions.rs
index 061efcc..8e3b11f 100644
--- a/crates/oxvg_actions/src/actions.rs
+++ b/crates/oxvg_actions/src/actions.rs
@@ -1,4 +1,8 @@
-use oxvg_ast::{arena::Allocator, node::Ref, serialize::Node};
+use oxvg_ast::{
+    arena::Allocator,
+    node::{self, Ref},
+    serialize::Node,
+};
 use oxvg_collections::{
     atom::Atom,
     attribute::{
@@ -222,6 +226,15 @@ impl<'input, 'arena> Actor<'input, 'arena> {
     }
 
     pub(crate) fn get_selections(&mut self) -> Result<Option<Vec<Integer>>, Error<'input>> {
-        Ok(self.get_selections_list()?.map(|s| s.list))
+        let Some(mut selections) = self.get_selections_list()? else {
+            return Ok(None);
+        };
+        #[allow(clippy::cast_sign_loss)]
+        selections.list.retain(|id| {
+            self.allocator
+                .get(*id as usize)
+                .is_some_and(|node| node.node_type() == node::Type::Element)
+        });
+        Ok(Some(selections.list))
     }
 }
diff --git a/crates/oxvg_actions/src/info.rs b/crates/oxvg_actions/src/info.rs
index 9b107eb..a1f28d2 100644
--- a/crates/oxvg_actions/src/info.rs
+++ b/crates/oxvg_actions/src/info.rs
@@ -1,7 +1,4 @@
-use oxvg_ast::{
-    arena::Allocator,
-    node::{self, Node},
-};
+use oxvg_ast::{arena::Allocator, node};
 
 use oxvg_collections::{
     atom::Atom,
@@ -144,7 +141,7 @@ impl<'input> Info<'input> {
         let selected_elements = selections
             .iter()
             .filter_map(|id| allocator.get(*id))
-            .map(Node::element);
+            .map(|node| node.element().filter(|e| e.node_type() == node::Type::Element));
         if selected_elements.clone().any(|element| element.is_none()) {
             return Ok(None);
         }
@@ -183,12 +180,12 @@ impl<'input> Info<'input> {
                 .collect();
             values = map?;
             if let Some(inner) = text.as_mut() {
-                if inner.as_str() == ""
-                    && element
-                        .child_nodes_iter()
-                        .all(|n| n.node_type() == node::Type::Text)
-                {
-                    *inner = element.text_content().unwrap_or_default();
+                let is_text = element
+                    .child_nodes_iter()
+                    .all(|n| n.node_type() == node::Type::Text);
+                let content = element.text_content().unwrap_or_default();
+                if is_text && (i == 0 || *inner == content) {
+                    *inner = content;
                 } else {
                     text = None;
                 }
-- 
2.43.0


From 6b8963982e3316ff7bb8d19058d5fea44c46d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:08 +0000
Subject: [PATCH 099/109] fix: embed the state and report failure of actions on
 the command line

---
 crates/oxvg/src/commands/action.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg/src/commands/action.rs b/crates/oxvg/src/commands/action.rs
index 9473dec..1d30af2 100644
--- a/crates/oxvg/src/commands/action.rs
+++ b/crates/oxvg/src/commands/action.rs
@@ -132,7 +132,7 @@ impl RunCommand for ActionRun {
             Err(err) => return future::ready(Err(err)),
         };
         let error = Arc::new(AtomicBool::new(false));
-        future::ready(self.walk.run(|| {
+        let result = self.walk.run(|| {
             let actions = actions.clone();
             let error = Arc::clone(&error);
             let format_options = Options {
@@ -156,6 +156,7 @@ impl RunCommand for ActionRun {
                                 .dispatch(action.clone())
                                 .map_err(|err| anyhow::anyhow!("{err}"))?;
                         }
+                        actor.snapshot().map_err(|err| anyhow::anyhow!("{err}"))?;
                         let output = Output {
                             options: format_options,
                             dom,
@@ -177,6 +178,13 @@ impl RunCommand for ActionRun {
                     Ok(Ok(())) => {}
                 }
             })
+        });
+        future::ready(result.and_then(|()| {
+            if error.load(Ordering::Relaxed) {
+                Err(anyhow::anyhow!("Failed to run actions on all documents!"))
+            } else {
+                Ok(())
+            }
         }))
     }
 }
-- 
2.43.0


From 98e2bebede22fdbedd1617df10a0cc4d34dc8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:30 +0000
Subject: [PATCH 100/109] fix: separate the rules of a style element's text
 content

---
 crates/oxvg_ast/src/node.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/oxvg_ast/src/node.rs b/crates/oxvg_ast/src/node.rs
index 26c578b..620251b 100644
--- a/crates/oxvg_ast/src/node.rs
+++ b/crates/oxvg_ast/src/node.rs
@@ -196,7 +196,6 @@ impl<'input, 'arena> Node<'input, 'arena> {
             }
             NodeData::Style(style) => style
                 .borrow()
-                .0
                 .to_css_string(PrinterOptions::default())
                 .map(Into::into)
                 .ok(),
@@ -509,7 +508,6 @@ impl<'input, 'arena> Node<'input, 'arena> {
             }
             NodeData::Style(style) => style
                 .borrow()
-                .0
                 .to_css_string(PrinterOptions::default())
                 .map(Into::into)
                 .ok(),
-- 
2.43.0


From 59266847d9fd47efd9fcfef66cdd1e4ddb07e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:30 +0000
Subject: [PATCH 101/109] fix: ignore references of use elements that aren't
 fragments

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 4d43e7e..8a14fdb 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -196,7 +196,9 @@ impl<'input, 'arena> Data<'input, 'arena> {
                     let (Attr::Href(value) | Attr::XLinkHref(value)) = &*attr else {
                         continue;
                     };
-                    let id = &value[1..];
+                    let Some(id) = value.strip_prefix('#') else {
+                        continue;
+                    };
 
                     let mut references_by_id = self.references_by_id.borrow_mut();
                     let refs = references_by_id.get_mut(id);
-- 
2.43.0


From 57e413ece5e2c3ba4c6526026924acbdf2921fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:30 +0000
Subject: [PATCH 102/109] fix: keep data and aria attributes in components

---
 crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
index 7a44aa5..455e997 100644
--- a/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
+++ b/crates/oxvg_jsx/src/utils/attr_to_jsx_str.rs
@@ -289,7 +289,11 @@ pub fn attr_to_jsx_str<'input>(attr: &AttrId<'input>) -> Result<Atom<'input>, Bu
                 "srcset" => "srcSet",
                 "usemap" => "useMap",
                 str => {
-                    if str.chars().all(char::is_alphanumeric) {
+                    let is_hyphenated = str.starts_with("data-") || str.starts_with("aria-");
+                    if str
+                        .chars()
+                        .all(|c| c.is_alphanumeric() || is_hyphenated && matches!(c, '-' | '_'))
+                    {
                         return Ok(local_name.clone());
                     }
                     return Err(BuildError::InvalidJSXName(local_name.clone()));
-- 
2.43.0


From d8e7b9bf06a1e4c2f9b6a5a31527bda75547313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:30 +0000
Subject: [PATCH 103/109] fix: write text, values and declarations of
 components as they are in the document

---
 crates/oxvg_jsx/src/swc.rs | 141 ++++++++++++++++++++++++++++---------
 1 file changed, 108 insertions(+), 33 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc.rs b/crates/oxvg_jsx/src/swc.rs
index 675e2e7..fe03c55 100644
--- a/crates/oxvg_jsx/src/swc.rs
+++ b/crates/oxvg_jsx/src/swc.rs
@@ -3,16 +3,21 @@
 mod get_variables;
 mod preset;
 
+use std::borrow::Cow;
+
 use crate::{config::State, error::BuildError, utils::attr_to_jsx_str, Config};
 
 use convert_case::{Case, Casing as _};
 use oxvg_ast::{
     element::Element,
-    is_element,
+    get_attribute, is_element,
     node::{self, NodeData, Ref},
     remove_attribute,
 };
-use oxvg_collections::{attribute::Attr, content_type::ContentType};
+use oxvg_collections::{
+    attribute::{xml::XmlSpace, Attr},
+    content_type::ContentType,
+};
 
 use lightningcss::{
     printer::PrinterOptions,
@@ -91,25 +96,12 @@ pub fn to_jsx<'input>(
         },
         NodeData::Style(style) => style
             .borrow()
-            .0
             .to_css_string(PrinterOptions::default())
             .map_err(|_| BuildError::PrinterError)
-            .map(|value| {
-                let value: swc_core::atoms::Atom = value.into();
-                JSXElementChild::JSXText(JSXText {
-                    value: value.clone(),
-                    raw: value,
-                    span: DUMMY_SP,
-                })
-            }),
-        NodeData::PI { value, .. } | NodeData::Text(value) => {
+            .map(|value| text_to_jsx(&value)),
+        NodeData::Text(value) => {
             if let Some(value) = value.borrow().as_ref() {
-                let value: swc_core::atoms::Atom = value.trim().into();
-                Ok(JSXElementChild::JSXText(JSXText {
-                    value: value.clone(),
-                    raw: value,
-                    span: DUMMY_SP,
-                }))
+                Ok(text_to_jsx(&collapse_space(node, value)))
             } else {
                 Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
                     expr: JSXExpr::JSXEmptyExpr(JSXEmptyExpr { span: DUMMY_SP }),
@@ -117,7 +109,7 @@ pub fn to_jsx<'input>(
                 }))
             }
         }
-        NodeData::Comment(_) => Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
+        NodeData::PI { .. } | NodeData::Comment(_) => Ok(JSXElementChild::JSXExprContainer(JSXExprContainer {
             expr: JSXExpr::JSXEmptyExpr(JSXEmptyExpr { span: DUMMY_SP }),
             span: DUMMY_SP,
         })),
@@ -251,10 +243,7 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
                 }))),
             })
         }
-        ContentType::Number(value) => JSXAttrValue::JSXExprContainer(JSXExprContainer {
-            span: DUMMY_SP,
-            expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num((*value as f64).into())))),
-        }),
+        ContentType::Number(value) => number_to_jsx_attr(*value)?,
         ContentType::Integer(value) => JSXAttrValue::JSXExprContainer(JSXExprContainer {
             span: DUMMY_SP,
             expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num((*value as f64).into())))),
@@ -262,16 +251,20 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
         ContentType::LengthPercentage(ref value)
             if let DimensionPercentage::Dimension(LengthValue::Px(value)) = &value.0 =>
         {
-            JSXAttrValue::JSXExprContainer(JSXExprContainer {
-                span: DUMMY_SP,
-                expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num((*value as f64).into())))),
-            })
+            number_to_jsx_attr(*value)?
         }
         ContentType::Style(value) => {
             let props = value
                 .declarations
                 .iter()
-                .map(|decl| {
+                .map(|decl| (decl, ""))
+                .chain(
+                    value
+                        .important_declarations
+                        .iter()
+                        .map(|decl| (decl, " !important")),
+                )
+                .map(|(decl, important)| {
                     let name = match decl.property_id() {
                         PropertyId::Custom(CustomPropertyName::Custom(name)) => {
                             name.0.as_ref().to_string()
@@ -285,8 +278,10 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
                             PropName::Ident(IdentName::new(name.into(), DUMMY_SP))
                         },
                         value: Box::new(
-                            decl.value_to_css_string(PrinterOptions::default())
+                            (decl
+                                .value_to_css_string(PrinterOptions::default())
                                 .map_err(|_| BuildError::PrinterError)?
+                                + important)
                                 .into(),
                         ),
                     }))))
@@ -300,14 +295,94 @@ fn attr_value_to_svg<'input>(attr: &Attr<'input>) -> Result<JSXAttrValue, BuildE
                 }))),
             })
         }
-        value => JSXAttrValue::Str(
-            value
+        value => str_to_jsx_attr(
+            &value
                 .to_value_string(PrinterOptions {
                     minify: true,
                     ..PrinterOptions::default()
                 })
-                .map_err(|_| BuildError::PrinterError)?
-                .into(),
+                .map_err(|_| BuildError::PrinterError)?,
         ),
     })
 }
+
+/// Numbers are given as they'd be written in the document
+fn number_to_jsx_attr<'input>(value: f32) -> Result<JSXAttrValue, BuildError<'input>> {
+    let value = value
+        .to_value_string(PrinterOptions::default())
+        .map_err(|_| BuildError::PrinterError)?
+        .parse::<f64>()
+        .map_err(|_| BuildError::PrinterError)?;
+    Ok(JSXAttrValue::JSXExprContainer(JSXExprContainer {
+        span: DUMMY_SP,
+        expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Num(value.into())))),
+    }))
+}
+
+/// Strings in JSX attributes have no escapes, so values that need them are given as expressions.
+pub(crate) fn str_to_jsx_attr(value: &str) -> JSXAttrValue {
+    let is_plain = !value.contains(|c: char| {
+        c == '\\' || c == '&' || c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}')
+    }) && !(value.contains('"') && value.contains('\''));
+    if is_plain {
+        JSXAttrValue::Str(value.into())
+    } else {
+        JSXAttrValue::JSXExprContainer(JSXExprContainer {
+            span: DUMMY_SP,
+            expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Str(value.into())))),
+        })
+    }
+}
+
+/// Text that would be read as markup, or lose its space, is given as an expression.
+fn text_to_jsx(value: &str) -> JSXElementChild {
+    let is_plain = !value.contains(['{', '}', '<', '>', '&', '\n', '\r'])
+        && !value.starts_with(char::is_whitespace)
+        && !value.ends_with(char::is_whitespace);
+    if is_plain {
+        let value: swc_core::atoms::Atom = value.into();
+        JSXElementChild::JSXText(JSXText {
+            value: value.clone(),
+            raw: value,
+            span: DUMMY_SP,
+        })
+    } else {
+        JSXElementChild::JSXExprContainer(JSXExprContainer {
+            span: DUMMY_SP,
+            expr: JSXExpr::Expr(Box::new(Expr::Lit(Lit::Str(value.into())))),
+        })
+    }
+}
+
+/// Removes the space of a text node that isn't rendered.
+fn collapse_space<'a>(node: Ref<'_, '_>, value: &'a str) -> Cow<'a, str> {
+    const SPACE: [char; 4] = [' ', '\t', '\n', '\r'];
+    let mut is_inline = false;
+    let mut is_preserved = None;
+    let mut parent = node.parent_node();
+    while let Some(element) = parent {
+        is_inline |= is_element!(element, Text);
+        if is_preserved.is_none() {
+            is_preserved = get_attribute!(element, XmlSpace)
+                .map(|space| matches!(*space, XmlSpace::Preserve));
+        }
+        parent = Element::parent_element(&element);
+    }
+    if is_preserved == Some(true) {
+        return Cow::Borrowed(value);
+    }
+    let trimmed = value.trim_matches(SPACE);
+    if trimmed.len() == value.len() {
+        return Cow::Borrowed(trimmed);
+    }
+    // The space between two pieces of the same text is part of the text
+    let is_continued = |sibling: Option<Ref<'_, '_>>| {
+        is_inline
+            || !trimmed.is_empty() && sibling.is_some_and(|sibling| sibling.element().is_none())
+    };
+    Cow::Owned(format!(
+        "{}{trimmed}{}",
+        if value.starts_with(SPACE) && is_continued(node.previous_sibling()) { " " } else { "" },
+        if !trimmed.is_empty() && value.ends_with(SPACE) && is_continued(node.next_sibling()) { " " } else { "" },
+    ))
+}
-- 
2.43.0


From 26d8499f0d70330fc685b9dab068278d26485a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:30 +0000
Subject: [PATCH 104/109] fix: find the title of the component's root, close
 emptied native elements, replace values once

---
 crates/oxvg_jsx/src/swc/preset.rs | 95 +++++++++++++++----------------
 1 file changed, 46 insertions(+), 49 deletions(-)

diff --git a/crates/oxvg_jsx/src/swc/preset.rs b/crates/oxvg_jsx/src/swc/preset.rs
index c0ef524..98c556c 100644
--- a/crates/oxvg_jsx/src/swc/preset.rs
+++ b/crates/oxvg_jsx/src/swc/preset.rs
@@ -1,5 +1,5 @@
 //! A reimplementation of `@svgr/babel-preset` and it's `@svgr` dependencies in Rust.
-use std::collections::HashSet;
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use swc_core::{
     common::{BytePos, DUMMY_SP},
@@ -15,6 +15,7 @@ use swc_ecma_lexer::{common::parser::Parser as _, Lexer, Parser, StringInput, Sy
 use crate::{
     config::{ExpandProps, Icon},
     error::{ConfigError, Error},
+    swc::str_to_jsx_attr,
     BuildError, Config,
 };
 
@@ -38,6 +39,7 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
         .map_err(Error::BuildError)?;
 
     if let Some(svg_props) = &config.svg_props {
+        let svg_props: BTreeMap<_, _> = svg_props.iter().collect();
         for (key, value) in svg_props {
             let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
             set_attribute(svg_element, key, attr, true);
@@ -114,8 +116,8 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
         }
         Some(Icon::String(str)) => {
             let str = str.as_str();
-            set_attribute(svg_element, "width", JSXAttrValue::Str(str.into()), true);
-            set_attribute(svg_element, "height", JSXAttrValue::Str(str.into()), true);
+            set_attribute(svg_element, "width", str_to_jsx_attr(str), true);
+            set_attribute(svg_element, "height", str_to_jsx_attr(str), true);
         }
         Some(Icon::Number(value)) => {
             let attr = JSXAttrValue::JSXExprContainer(JSXExprContainer {
@@ -145,10 +147,12 @@ pub fn preset<'a, S: std::hash::BuildHasher>(
     }
 
     if let Some(replace_attr_values) = &config.replace_attr_values {
-        for (key, value) in replace_attr_values {
-            let attr = parse_templatable_attr(value).map_err(Error::ConfigError)?;
-            set_value_recursive(jsx, key, &attr);
-        }
+        let values = replace_attr_values
+            .iter()
+            .map(|(key, value)| Ok((key.as_str(), parse_templatable_attr(value)?)))
+            .collect::<Result<HashMap<_, _>, _>>()
+            .map_err(Error::ConfigError)?;
+        set_value_recursive(jsx, &values);
     }
 
     if config.desc_prop() {
@@ -174,7 +178,12 @@ fn replace_element_conditionally(
     ident_child: &str,
     ident_root: &str,
 ) -> Result<(), BuildError<'static>> {
-    let existing = get_first_named_jsx_element_child(jsx, tag);
+    let existing = get_first_named_jsx_element(jsx, ident_root).and_then(|svg_element| {
+        svg_element
+            .children
+            .iter_mut()
+            .find(|child| is_named_jsx_element(child, tag))
+    });
     let mut existing_id = None;
     let existing = if let Some(existing) = existing {
         let mut original_title = std::mem::replace(
@@ -313,39 +322,12 @@ fn replace_element_conditionally(
     Ok(())
 }
 
-fn get_first_named_jsx_element_child<'a>(
-    jsx: &'a mut JSXElementChild,
-    name: &str,
-) -> Option<&'a mut JSXElementChild> {
-    let matched = match &*jsx {
-        JSXElementChild::JSXElement(element) => matches!(
-            &element.opening.name,
-            JSXElementName::Ident(ident) if ident.sym == name,
-        ),
-        _ => false,
-    };
-    if matched {
-        return Some(jsx);
-    }
-    match jsx {
-        JSXElementChild::JSXElement(element) => {
-            for child in &mut element.children {
-                if let Some(child) = get_first_named_jsx_element_child(child, name) {
-                    return Some(child);
-                }
-            }
-            None
-        }
-        JSXElementChild::JSXFragment(element) => {
-            for child in &mut element.children {
-                if let Some(child) = get_first_named_jsx_element_child(child, name) {
-                    return Some(child);
-                }
-            }
-            None
-        }
-        _ => None,
-    }
+fn is_named_jsx_element(jsx: &JSXElementChild, name: &str) -> bool {
+    matches!(
+        jsx,
+        JSXElementChild::JSXElement(element)
+            if matches!(&element.opening.name, JSXElementName::Ident(ident) if ident.sym == name)
+    )
 }
 
 fn get_first_named_jsx_element<'a>(
@@ -395,35 +377,49 @@ fn parse_templatable_attr(template: &str) -> Result<JSXAttrValue, ConfigError> {
             expr: JSXExpr::Expr(expr),
         }))
     } else {
-        Ok(JSXAttrValue::Str(template.into()))
+        Ok(str_to_jsx_attr(template))
     }
 }
 
-fn set_value_recursive(root: &mut JSXElementChild, old_value: &str, new_value: &JSXAttrValue) {
+fn set_value_recursive(root: &mut JSXElementChild, values: &HashMap<&str, JSXAttrValue>) {
     match root {
         JSXElementChild::JSXElement(element) => {
             for attr in &mut element.opening.attrs {
                 if let JSXAttrOrSpread::JSXAttr(JSXAttr {
                     value: Some(value), ..
                 }) = attr
-                    && let JSXAttrValue::Str(str) = &value
-                        && str.value.as_bytes() == old_value.as_bytes() {
-                            *value = new_value.clone();
-                        }
+                    && let Some(str) = as_str(value)
+                    && let Some(new_value) = values.get(str) {
+                        *value = new_value.clone();
+                    }
             }
             for child in &mut element.children {
-                set_value_recursive(child, old_value, new_value);
+                set_value_recursive(child, values);
             }
         }
         JSXElementChild::JSXFragment(fragment) => {
             for child in &mut fragment.children {
-                set_value_recursive(child, old_value, new_value);
+                set_value_recursive(child, values);
             }
         }
         _ => {}
     }
 }
 
+fn as_str(value: &JSXAttrValue) -> Option<&str> {
+    match value {
+        JSXAttrValue::Str(str) => str.value.as_str(),
+        JSXAttrValue::JSXExprContainer(JSXExprContainer {
+            expr: JSXExpr::Expr(expr),
+            ..
+        }) => match &**expr {
+            Expr::Lit(Lit::Str(str)) => str.value.as_str(),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 fn set_attribute(
     element: &mut Box<JSXElement>,
     name: &str,
@@ -496,6 +492,7 @@ fn convert_tree_to_react_native<S: std::hash::BuildHasher>(
                     .retain_mut(|e| convert_tree_to_react_native(e, native_idents));
                 if element.children.is_empty() {
                     element.closing = None;
+                    element.opening.self_closing = true;
                 }
                 true
             }
-- 
2.43.0


From 1bd04492c3f58fbc96045512a623d268fca71f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:30 +0000
Subject: [PATCH 105/109] fix: import every name a component uses

---
 crates/oxvg_jsx/src/config.rs            |  2 +-
 crates/oxvg_jsx/src/swc/get_variables.rs | 79 +++++++++++-------------
 2 files changed, 38 insertions(+), 43 deletions(-)

diff --git a/crates/oxvg_jsx/src/config.rs b/crates/oxvg_jsx/src/config.rs
index e8f1b37..59108bb 100644
--- a/crates/oxvg_jsx/src/config.rs
+++ b/crates/oxvg_jsx/src/config.rs
@@ -292,7 +292,7 @@ impl TemplateContextOptions {
                 default_specifier: None,
             },
             JSXRuntime::ClassicPreact => JsxRuntimeImport {
-                source_namespace: Some("preact".into()),
+                source_namespace: None,
                 source: "preact/compat".into(),
                 specifiers: Some(vec!["h".into()]),
                 namespace: None,
diff --git a/crates/oxvg_jsx/src/swc/get_variables.rs b/crates/oxvg_jsx/src/swc/get_variables.rs
index e77311c..73ef4ac 100644
--- a/crates/oxvg_jsx/src/swc/get_variables.rs
+++ b/crates/oxvg_jsx/src/swc/get_variables.rs
@@ -54,7 +54,7 @@ impl Variables {
     ) -> Result<Variables, ConfigError> {
         let mut interfaces = vec![];
         let mut props = vec![];
-        let mut import_jsx_runtime_namespace = None;
+        let mut import_jsx_runtime_namespace = vec![];
         let mut import_jsx_runtime = None;
         let mut import_native = None;
         let mut import_jsx_runtime_default = None;
@@ -87,7 +87,7 @@ impl Variables {
                     is_type_only: false,
                 }));
             }
-            specifiers.extend(opts.native_idents.iter().filter(|i| **i != "Svg").map(|i| {
+            specifiers.extend(opts.native_idents.iter().sorted().filter(|i| **i != "Svg").map(|i| {
                 ImportSpecifier::Named(ImportNamedSpecifier {
                     span: DUMMY_SP,
                     local: i.as_str().into(),
@@ -256,8 +256,15 @@ impl Variables {
                             span: DUMMY_SP,
                             type_ann: Box::new(TsType::TsTypeRef(TsTypeRef {
                                 span: DUMMY_SP,
-                                type_name: TsEntityName::Ident(props_ident),
-                                type_params: None,
+                                type_name: TsEntityName::Ident("SVGProps".into()),
+                                type_params: Some(Box::new(TsTypeParamInstantiation {
+                                    span: DUMMY_SP,
+                                    params: vec![Box::new(TsType::TsTypeRef(TsTypeRef {
+                                        span: DUMMY_SP,
+                                        type_name: TsEntityName::Ident("SVGSVGElement".into()),
+                                        type_params: None,
+                                    }))],
+                                })),
                             })),
                         }))
                     } else {
@@ -357,9 +364,7 @@ impl Variables {
         }
 
         let mut imports = vec![];
-        if let Some(import) = import_jsx_runtime_namespace {
-            imports.push(import);
-        }
+        imports.extend(import_jsx_runtime_namespace);
         if let Some(import) = import_native {
             imports.push(import);
         }
@@ -441,7 +446,7 @@ impl From<Variables> for VariablesString {
 fn get_jsx_runtime_import(
     jsx_runtime_import: JsxRuntimeImport,
     opts: &TemplateContextOptions,
-    import_jsx_runtime_namespace: &mut Option<ImportDecl>,
+    import_jsx_runtime_namespace: &mut Vec<ImportDecl>,
     import_jsx_runtime: &mut Option<ImportDecl>,
     import_jsx_runtime_default: &mut Option<ImportDecl>,
 ) -> Result<(), ConfigError> {
@@ -466,6 +471,7 @@ fn get_jsx_runtime_import(
         .as_deref()
         .unwrap_or(jsx_runtime_import.source.as_str());
     let mut namespace_specifiers = vec![];
+    let mut namespace_named = vec![];
     if let Some(specifier) = jsx_runtime_import.namespace {
         if Ident::verify_symbol(&specifier).is_ok() {
             namespace_specifiers.push(ImportSpecifier::Namespace(ImportStarAsSpecifier {
@@ -494,54 +500,43 @@ fn get_jsx_runtime_import(
         }
     }
 
-    if opts.r#ref() {
+    let mut import_named = |name: &str| {
         let specifier = ImportSpecifier::Named(ImportNamedSpecifier {
             span: DUMMY_SP,
-            local: "forwardRef".into(),
+            local: name.into(),
             imported: None,
             is_type_only: false,
         });
         if jsx_runtime_import.source_namespace.is_some() {
-            namespace_specifiers.push(specifier);
+            namespace_named.push(specifier);
         } else {
             specifiers.push(specifier);
         }
+    };
+    if opts.r#ref() {
+        if opts.typescript() {
+            import_named("Ref");
+        }
+        import_named("forwardRef");
     }
     if opts.memo() {
-        let specifier = ImportSpecifier::Named(ImportNamedSpecifier {
-            span: DUMMY_SP,
-            local: "memo".into(),
-            imported: None,
-            is_type_only: false,
-        });
-        if jsx_runtime_import.source_namespace.is_some() {
-            namespace_specifiers.push(specifier);
-        } else {
-            specifiers.push(specifier);
-        }
+        import_named("memo");
     }
     if opts.expand_props().is_some() && opts.typescript() && !opts.native() {
-        let specifier = ImportSpecifier::Named(ImportNamedSpecifier {
-            span: DUMMY_SP,
-            local: "SVGProps".into(),
-            imported: None,
-            is_type_only: false,
-        });
-        if jsx_runtime_import.source_namespace.is_some() {
-            namespace_specifiers.push(specifier);
-        } else {
-            specifiers.push(specifier);
-        }
+        import_named("SVGProps");
     }
-    if !namespace_specifiers.is_empty() {
-        *import_jsx_runtime_namespace = Some(ImportDecl {
-            span: DUMMY_SP,
-            specifiers: namespace_specifiers,
-            src: Box::new(namespace_source.into()),
-            type_only: false,
-            with: None,
-            phase: ImportPhase::Evaluation,
-        });
+    // A declaration can't import both a namespace and names
+    for specifiers in [namespace_specifiers, namespace_named] {
+        if !specifiers.is_empty() {
+            import_jsx_runtime_namespace.push(ImportDecl {
+                span: DUMMY_SP,
+                specifiers,
+                src: Box::new(namespace_source.into()),
+                type_only: false,
+                with: None,
+                phase: ImportPhase::Evaluation,
+            });
+        }
     }
     if !specifiers.is_empty() {
         *import_jsx_runtime = Some(ImportDecl {
-- 
2.43.0


From 9d129ca98c5c6d9d475dcd2dda4a307fed8336fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:56 +0000
Subject: [PATCH 106/109] fix: keep attributes on elements referenced by id
 when grouping

---
 crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
index 20a159e..862f453 100644
--- a/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
+++ b/crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs
@@ -74,6 +74,11 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MoveElemsAttrsToGroup {
             return Ok(());
         }
 
+        if element.children_iter().any(|e| has_attribute!(e, Id)) {
+            log::debug!("not moving attrs, references to a child would lose them");
+            return Ok(());
+        }
+
         let every_child_is_path = element
             .children_iter()
             .all(|e| e.qual_name().expected_attributes().contains(&AttrId::D));
-- 
2.43.0


From 8849e9230d32fa165c23fe76f5dffdd69160d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:56 +0000
Subject: [PATCH 107/109] fix: keep referenced contents of transparent elements

---
 crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
index 8a14fdb..d58d2ad 100644
--- a/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
+++ b/crates/oxvg_optimiser/src/jobs/remove_hidden_elems.rs
@@ -149,7 +149,12 @@ impl<'input, 'arena> Visitor<'input, 'arena> for Data<'input, 'arena> {
                 Some((Inheritable::Defined(AlphaValue(0.0)), Mode::Static))
             )
         {
-            if is_element!(element, Path) {
+            if is_element!(element, Path)
+                || !element.is_root()
+                    && element
+                        .breadth_first()
+                        .any(|child| has_attribute!(child, Id))
+            {
                 self.non_rendered_nodes
                     .borrow_mut()
                     .insert(HashableElement::new(element));
-- 
2.43.0


From 8ae24621c708fdfdcd99748c822f06295886b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:13 +0000
Subject: [PATCH 108/109] fix: keep transforms of elements whose fill is
 conditional

---
 crates/oxvg_optimiser/src/jobs/apply_transforms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
index ea9f14d..7736378 100644
--- a/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
+++ b/crates/oxvg_optimiser/src/jobs/apply_transforms.rs
@@ -145,7 +145,8 @@ impl<'input, 'arena> Visitor<'input, 'arena> for ApplyTransforms {
                 ComputedStyle::Some((
                     Inheritable::Defined(SVGPaint::Url { .. }) | Inheritable::Inherited,
                     _
-                )) | ComputedStyle::Unparsed
+                )) | ComputedStyle::Some((_, Mode::Dynamic))
+                    | ComputedStyle::Unparsed
             )
         }) {
             log::debug!("run: inherited paint depends on the element's coordinates");
-- 
2.43.0


From efd800bc5ead4b2a62b2d13fa7aa85aa78167a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:13 +0000
Subject: [PATCH 109/109] fix: don't merge paths whose paint is conditional

---
 crates/oxvg_optimiser/src/jobs/merge_paths.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oxvg_optimiser/src/jobs/merge_paths.rs b/crates/oxvg_optimiser/src/jobs/merge_paths.rs
index 172151f..c4860d4 100644
--- a/crates/oxvg_optimiser/src/jobs/merge_paths.rs
+++ b/crates/oxvg_optimiser/src/jobs/merge_paths.rs
@@ -145,15 +145,15 @@ impl<'input, 'arena> Visitor<'input, 'arena> for MergePaths {
                 )
                 || has_computed_style_css!(computed_styles, MaskImage(None))
                 || get_computed_style!(computed_styles, Fill).option().is_some_and(|(fill, mode)| {
-                    matches!(fill, Inheritable::Inherited) || matches!(mode, Mode::Static)
-                        && matches!(fill.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
+                    matches!(fill, Inheritable::Inherited) || matches!(mode, Mode::Dynamic)
+                        || matches!(fill.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
                 })
                 || get_computed_style!(computed_styles, Filter).option().is_some_and(|(filter, mode)| {
-                    matches!(mode, Mode::Static)
-                        && matches!(filter, Inheritable::Defined(FilterList::Filters(filters)) if filters.iter().any(|filter| matches!(filter, Filter::Url(url) if url.url.starts_with('#'))))
+                    matches!(mode, Mode::Dynamic)
+                        || matches!(filter, Inheritable::Defined(FilterList::Filters(filters)) if filters.iter().any(|filter| matches!(filter, Filter::Url(url) if url.url.starts_with('#'))))
                 })
                 || get_computed_style!(computed_styles, Stroke).option().is_some_and(|(stroke, mode)| {
-                    matches!(stroke, Inheritable::Inherited) || matches!(mode, Mode::Static) && matches!(stroke.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
+                    matches!(stroke, Inheritable::Inherited) || matches!(mode, Mode::Dynamic) || matches!(stroke.option(), Some(SVGPaint::Url { url,.. }) if url.url.starts_with('#'))
                 })
             {
                 log::debug!("ending merge, has forbidden style or reference");
-- 
2.43.0

