From 22c55fa76361393cbb48cf3915b5852d7162b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:37 +0000
Subject: [PATCH 01/65] fix: formatter wrote unparsable or altered numbers
 (exponents, zero decimal places, zero trimming switch)

---
 src/pygerber/gerber/formatter/formatter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 7471884..aafe2e5 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -5,6 +5,7 @@ configurable Gerber code formatting.
 from __future__ import annotations
 
 from contextlib import contextmanager
+from decimal import Decimal
 from functools import wraps
 from io import StringIO
 from typing import (
@@ -130,6 +131,7 @@ from pygerber.gerber.ast.nodes import (
 from pygerber.gerber.formatter.enums import (
     EmptyLineBeforePolaritySwitch,
     ExplicitParenthesis,
+    FloatTrimTrailingZeros,
     KeepNonStandaloneCodes,
     MacroEndInNewLine,
     MacroSplitMode,
@@ -279,7 +281,9 @@ class Formatter(AstVisitor):
 
         self.float_decimal_places = self.options.float_decimal_places
 
-        self.float_trim_trailing_zeros = self.options.float_trim_trailing_zeros
+        self.float_trim_trailing_zeros = (
+            self.options.float_trim_trailing_zeros == FloatTrimTrailingZeros.Yes
+        )
 
         if isinstance(self.options.d01_indent, int):
             self.d01_indent = self.options.indent_character * self.options.d01_indent
@@ -373,11 +377,13 @@ class Formatter(AstVisitor):
 
     def _fmt_double(self, value: Double) -> str:
         if self.float_decimal_places < 0:
-            return str(value)
+            text = str(value)
+            # Gerber numbers have no exponent, use positional notation instead.
+            return f"{Decimal(text):f}" if "e" in text else text
         double = f"{value:.{self.float_decimal_places}f}"
-        if self.float_trim_trailing_zeros:
+        if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
-        return double  # type: ignore[unreachable]
+        return double
 
     def _insert_base_indent(self) -> None:
         self._write(self._base_indent)
-- 
2.43.0


From 8b6ffd3c326430c48dbcad9abf5507c75dbeb8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:37 +0000
Subject: [PATCH 02/65] fix: formatter dropped or invented SR parameters unless
 all of them were present

---
 src/pygerber/gerber/formatter/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index aafe2e5..2326faf 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -516,13 +516,13 @@ class Formatter(AstVisitor):
             if node.x is not None:
                 self._write(f"X{node.x}")
 
-            if node.x is not None:
+            if node.y is not None:
                 self._write(f"Y{node.y}")
 
-            if node.x is not None:
+            if node.i is not None:
                 self._write(f"I{node.i}")
 
-            if node.x is not None:
+            if node.j is not None:
                 self._write(f"J{node.j}")
 
         return node
-- 
2.43.0


From 4530242f06cc1ab0b2c7c82765741db657d9e8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:37 +0000
Subject: [PATCH 03/65] fix: formatter wrote macro aperture parameters and OF
 offsets bypassing number formatting

---
 src/pygerber/gerber/formatter/formatter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 2326faf..7e9149c 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -479,9 +479,9 @@ class Formatter(AstVisitor):
         with self._extended_command(f"AD{node.aperture_id}{node.name}"):
             if node.params is not None:
                 first, *rest = node.params
-                self._write(f",{first}")
+                self._write(f",{self._fmt_double(first)}")
                 for param in rest:
-                    self._write(f"X{param}")
+                    self._write(f"X{self._fmt_double(param)}")
         return node
 
     @_decorator_insert_base_indent
@@ -1504,9 +1504,9 @@ class Formatter(AstVisitor):
         """Handle `OF` node."""
         with self._extended_command("OF"):
             if node.a_offset is not None:
-                self._write(f"A{node.a_offset}")
+                self._write(f"A{self._fmt_double(node.a_offset)}")
             if node.b_offset is not None:
-                self._write(f"B{node.b_offset}")
+                self._write(f"B{self._fmt_double(node.b_offset)}")
         return node
 
     @_decorator_insert_base_indent
-- 
2.43.0


From d221f055be80358a478f6777aeecbf735355292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:54 +0000
Subject: [PATCH 04/65] fix: parser rejected decimals with empty fraction such
 as '1.' which the format allows

---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index a67d268..20c4046 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -303,7 +303,7 @@ class Grammar:
     @pp.cached_property
     def double(self) -> pp.ParserElement:
         """Create a parser element capable of parsing doubles."""
-        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]+)?)|(\.[0-9]+))").set_results_name(
+        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]*)?)|(\.[0-9]+))").set_results_name(
             "double"
         )
 
-- 
2.43.0


From 20a762aee93fa4deeca2cf8ccfc573ef9d89b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 05/65] fix: M00/M02 did not end the program unless
 ignore_program_stop was requested

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 94467ce..54d1c26 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -948,6 +948,6 @@ class StateTrackingVisitor(AstVisitor):
     def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
         """Handle exception."""
         if isinstance(exception, ProgramStop):
-            return bool(self._ignore_program_stop)
+            return not self._ignore_program_stop
 
         return True
-- 
2.43.0


From d37f7669f24d3605423390001115247b3a9bdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:42 +0000
Subject: [PATCH 06/65] fix: regular polygon lost vertices when rotated by two
 or more vertex steps

---
 src/pygerber/vm/commands/shape.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 1b460fa..2263b55 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -234,10 +234,8 @@ class Shape(Command):
         local_vertex_offset = local_vertex_offset.transform(
             Matrix3x3.new_rotate(base_rotation)
         )
-        current_angle = base_rotation
 
-        while current_angle < FULL_ANGLE_DEGREES:
-            current_angle += angle_step
+        for _ in range(vertices_count):
             new_local_vertex_offset = local_vertex_offset.transform(transform_matrix)
 
             commands.append(
-- 
2.43.0


From 4ad2859a9045a58c8114d039db13f41dc18400f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:42 +0000
Subject: [PATCH 07/65] fix: macro polygon primitive applied its rotation twice

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 72f10f7..49c4a7b 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -910,7 +910,7 @@ class MacroEvalVisitor(AstVisitor):
             (center_x, center_y),
             diameter,
             number_of_vertices,
-            rotation,
+            0.0,
             is_negative=(exposure == 0),
             metadata=self._metadata,
         )
-- 
2.43.0


From 451b8817c4abcd13f6dc95af28e8fa566bfd1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:42 +0000
Subject: [PATCH 08/65] fix: step and repeat copies were displaced by the last
 point of the repeated block

---
 src/pygerber/gerber/compiler/compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 49c4a7b..f4c540a 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -240,10 +240,8 @@ class Compiler(StateTrackingVisitor):
 
         for x in range(node.open.x_repeats):
             for y in range(node.open.y_repeats):
-                x_coordinate = self.coordinate_x + (x * x_delta)
-                y_coordinate = self.coordinate_y + (y * y_delta)
                 tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
-                    buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
+                    buffer, Matrix3x3.new_translate(x=x * x_delta, y=y * y_delta)
                 )
 
                 self._expand_buffer_to_current_buffer(tmp_buffer)
-- 
2.43.0


From 74748b3708323ad3985bd4916ad4e3e38271c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:44 +0000
Subject: [PATCH 09/65] fix: thermal apertures of one macro shared a layer,
 shared layers were submitted twice

---
 src/pygerber/gerber/compiler/compiler.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index f4c540a..1708368 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -5,7 +5,6 @@ abstract syntax tree to PyGerber rendering VM commands (RVMC).
 from __future__ import annotations
 
 import math
-import time
 from math import cos, radians, sin
 from typing import TYPE_CHECKING, ClassVar, Optional
 
@@ -225,7 +224,7 @@ class Compiler(StateTrackingVisitor):
     def on_sr(self, node: SR) -> SR:
         """Handle `SR` node."""
         aperture_buffer = self._create_aperture_buffer(
-            ApertureIdStr(f"%%SR%{id(node)}%{time.time():.0f}")
+            ApertureIdStr(f"%%SR%{len(self._buffers)}")
         )
         self._push_buffer(aperture_buffer.id_str)
 
@@ -773,15 +772,24 @@ class Compiler(StateTrackingVisitor):
 
     def _resolve_buffer_submit_order(self) -> list[CommandBuffer]:
         buffer_submit_order: list[str] = []
+        submitted: set[str] = set()
+        in_progress: set[str] = set()
 
         def _(buffer: CommandBuffer) -> None:
-            for dependency_id in buffer.depends_on:
-                dependency = self._get_buffer(dependency_id)
-                _(dependency)
+            in_progress.add(buffer.id_str)
 
-                if buffer.id_str in buffer_submit_order:
+            for dependency_id in sorted(buffer.depends_on):
+                if dependency_id in submitted:
+                    continue
+
+                dependency = self._get_buffer(dependency_id)
+                if dependency_id in in_progress:
                     raise CyclicBufferDependencyError(buffer, dependency)
 
+                _(dependency)
+
+            in_progress.remove(buffer.id_str)
+            submitted.add(buffer.id_str)
             buffer_submit_order.append(buffer.id_str)
 
         _(self._get_buffer(self.MAIN_BUFFER_ID))
@@ -1012,7 +1020,9 @@ class MacroEvalVisitor(AstVisitor):
         if thickness <= 0:
             return node
 
-        aperture_id = ApertureIdStr(f"%%Code7%{id(node)}%{time.time():.0f}")
+        aperture_id = ApertureIdStr(
+            f"%%Code7%{self._aperture_buffer.id_str}%{len(self._aperture_buffer.commands)}"
+        )
         aperture_buffer = self._compiler._create_aperture_buffer(  # noqa: SLF001
             aperture_id
         )
-- 
2.43.0


From 72f06faeef15aae3de84cb7815a228650d47838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:16 +0000
Subject: [PATCH 10/65] fix: block aperture flashed with clear polarity did not
 toggle polarity of its objects

---
 src/pygerber/gerber/compiler/compiler.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 1708368..549be17 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -732,20 +732,31 @@ class Compiler(StateTrackingVisitor):
         aperture_id = aperture.open.aperture_id
         buffer = self._get_aperture_buffer(aperture_id)
         tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
-            buffer, Matrix3x3.new_translate(x=self.coordinate_x, y=self.coordinate_y)
+            buffer,
+            Matrix3x3.new_translate(x=self.coordinate_x, y=self.coordinate_y),
+            toggle_polarity=self.is_negative,
         )
 
         self._expand_buffer_to_current_buffer(tmp_buffer)
 
     def _apply_transform_to_buffer_non_recursive_tmp(
-        self, buffer: CommandBuffer, transform_matrix: Matrix3x3
+        self,
+        buffer: CommandBuffer,
+        transform_matrix: Matrix3x3,
+        *,
+        toggle_polarity: bool = False,
     ) -> CommandBuffer:
         commands: list[DrawCmdT] = []
         depends_on: set[str] = set()
 
         for cmd in buffer.commands:
             if isinstance(cmd, Shape):
-                commands.append(cmd.transform(transform_matrix))
+                shape = cmd.transform(transform_matrix)
+                if toggle_polarity:
+                    shape = shape.model_copy(
+                        update={"is_negative": not shape.is_negative}
+                    )
+                commands.append(shape)
 
             elif isinstance(cmd, PasteLayer):
                 depends_on.add(cmd.source_layer_id.id)
@@ -753,7 +764,7 @@ class Compiler(StateTrackingVisitor):
                     PasteLayer(
                         source_layer_id=cmd.source_layer_id,
                         center=cmd.center.transform(transform_matrix),
-                        is_negative=cmd.is_negative,
+                        is_negative=cmd.is_negative != toggle_polarity,
                         metadata=cmd.metadata,
                     )
                 )
-- 
2.43.0


From 8ffe00caaa8fe1c734a482fea5d09de3e8485b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:16 +0000
Subject: [PATCH 11/65] fix: I and J offsets of an earlier arc leaked into arcs
 which omit them

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 54d1c26..219e9cc 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -583,6 +583,9 @@ class StateTrackingVisitor(AstVisitor):
 
     def on_d01(self, node: D01) -> D01:
         """Handle `D01` node."""
+        # Unlike X and Y, the I and J offsets are not modal.
+        self.state.coordinate_i = None
+        self.state.coordinate_j = None
         super().on_d01(node)
         self._on_d01_handler(node)
         self._update_coordinates()
-- 
2.43.0


From 4177f06a9a188b31a798d7c52e0d225448ad2293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:16 +0000
Subject: [PATCH 12/65] fix: thickness of a line drawn with non circular
 aperture depended on its position

---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 549be17..7cfffa4 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -410,7 +410,7 @@ class Compiler(StateTrackingVisitor):
         end_point = (end_x, end_y)
 
         thickness = self._get_line_thickness(
-            Vector.from_tuple((self.coordinate_x, self.coordinate_y))
+            Vector(x=end_x - start_x, y=end_y - start_y)
         )
         self._append_shape_to_current_buffer(
             Shape.new_circle(
@@ -458,7 +458,7 @@ class Compiler(StateTrackingVisitor):
         center = (center_x, center_y)
 
         thickness = self._get_line_thickness(
-            Vector.from_tuple((self.coordinate_x, self.coordinate_y))
+            Vector(x=end_x - start_x, y=end_y - start_y)
         )
 
         self._append_shape_to_current_buffer(
-- 
2.43.0


From b613df436a8b433bc7a000b2340628c2b67d5803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:16 +0000
Subject: [PATCH 13/65] fix: aperture mirroring was applied after rotation
 instead of before

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 7cfffa4..acbe9bc 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -657,7 +657,7 @@ class Compiler(StateTrackingVisitor):
         rotation_matrix = Matrix3x3.new_rotate(transform.rotation)
         scale_matrix = Matrix3x3.new_scale(transform.scaling, transform.scaling)
 
-        transform_matrix = mirroring_matrix @ rotation_matrix @ scale_matrix
+        transform_matrix = rotation_matrix @ mirroring_matrix @ scale_matrix
 
         return self._get_buffer_with_transform(aperture_id, transform_matrix)
 
-- 
2.43.0


From b18fb2512aba09782aca7051d5d20423a180e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:34 +0000
Subject: [PATCH 14/65] fix: aperture scaling (LS) was ignored by draw
 operations

---
 src/pygerber/gerber/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index acbe9bc..98ec3c2 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -412,6 +412,7 @@ class Compiler(StateTrackingVisitor):
         thickness = self._get_line_thickness(
             Vector(x=end_x - start_x, y=end_y - start_y)
         )
+        thickness *= self.state.transform.scaling
         self._append_shape_to_current_buffer(
             Shape.new_circle(
                 start_point,
@@ -460,6 +461,7 @@ class Compiler(StateTrackingVisitor):
         thickness = self._get_line_thickness(
             Vector(x=end_x - start_x, y=end_y - start_y)
         )
+        thickness *= self.state.transform.scaling
 
         self._append_shape_to_current_buffer(
             Shape.new_circle(
-- 
2.43.0


From beb6100cffecb680a764e8831b7616d1c8e65659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:34 +0000
Subject: [PATCH 15/65] fix: transformed shape kept the bounding box of the
 original shape

---
 src/pygerber/vm/commands/shape.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 2263b55..9334d65 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -47,10 +47,11 @@ class Shape(Command):
 
     def transform(self, transform: Matrix3x3) -> Self:
         """Transpose shape by vector."""
-        return self.model_copy(
-            update={
-                "commands": [segment.transform(transform) for segment in self.commands]
-            }
+        # Constructing new instance, as model_copy() would copy cached outer_box too.
+        return self.__class__(
+            commands=[segment.transform(transform) for segment in self.commands],
+            is_negative=self.is_negative,
+            metadata=self.metadata,
         )
 
     def visit(self, visitor: CommandVisitor) -> None:
-- 
2.43.0


From c09a245708c9ead7385332427106ad7784ff8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:41 +0000
Subject: [PATCH 16/65] fix: moire primitive crashed when rings reached the
 center

---
 src/pygerber/gerber/compiler/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 98ec3c2..dbb14fd 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -984,7 +984,11 @@ class MacroEvalVisitor(AstVisitor):
             current_inner_diameter = outer_diameter - (ring_thickness * 2)
 
             for _ in range(int(max_ring_count)):
-                if current_outer_diameter <= ring_thickness:
+                if current_outer_diameter <= 0:
+                    break
+
+                # Innermost ring without a hole is a full disc.
+                if current_inner_diameter <= 0:
                     shapes.append(
                         Shape.new_circle(
                             center, current_outer_diameter, is_negative=False
-- 
2.43.0


From 1ec0ff371482eada8e5f6f027652f8fd7bc11ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:41 +0000
Subject: [PATCH 17/65] fix: thermal primitive vanished for wide gaps and
 crashed without inner hole

---
 src/pygerber/gerber/compiler/compiler.py | 28 ++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index dbb14fd..f84c91f 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -1031,7 +1031,7 @@ class MacroEvalVisitor(AstVisitor):
 
         thickness = outer_diameter - inner_diameter
 
-        if gap_thickness * math.sqrt(2) >= inner_diameter:
+        if gap_thickness * math.sqrt(2) >= outer_diameter:
             return node
 
         if thickness <= 0:
@@ -1045,15 +1045,25 @@ class MacroEvalVisitor(AstVisitor):
         )
 
         shapes: list[Shape] = []
-        shapes.extend(
-            Shape.new_ring(
-                (0, 0),
-                outer_diameter,
-                inner_diameter,
-                is_negative=False,
-                metadata=self._metadata,
+        if inner_diameter > 0:
+            shapes.extend(
+                Shape.new_ring(
+                    (0, 0),
+                    outer_diameter,
+                    inner_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
+            )
+        else:
+            shapes.append(
+                Shape.new_circle(
+                    (0, 0),
+                    outer_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
             )
-        )
 
         # Compensate rounding errors with rotation.
         radius_delta = outer_diameter / 2 + thickness / 1.99
-- 
2.43.0


From b5a71bf49e87a91deb7478f3b5b956ce2c218c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:12 +0000
Subject: [PATCH 18/65] fix: layers without content crashed virtual machines
 when pasted or rendered

---
 src/pygerber/vm/shapely/vm.py |  6 +++++-
 src/pygerber/vm/vm.py         | 30 ++++++++++++++++++------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 84e6113..749971b 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -416,7 +416,11 @@ class ShapelyVirtualMachine(VirtualMachine):
         layer = self._layers.get(self.MAIN_LAYER_ID, None)
 
         if layer is None:
-            raise NoMainLayerError
+            if self._fail_on_empty_auto_sized_layer:
+                raise NoMainLayerError
+            return ShapelyResult(
+                Box(min_x=0, min_y=0, max_x=0, max_y=0), sh.Polygon()
+            )
 
         assert isinstance(layer, ShapelyEagerLayer)
         return ShapelyResult(layer.box, sh.unary_union(layer.shape))
diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index d6d5752..9a9067b 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -131,6 +131,7 @@ class VirtualMachine(CommandVisitor):
         self._fail_on_empty_auto_sized_layer = fail_on_empty_auto_sized_layer
         self._layers: dict[LayerID, Layer] = {}
         self._layer_stack: list[Layer] = []
+        self._empty_layers: set[LayerID] = set()
 
     def set_handlers_for_layer(self, layer: Layer) -> None:
         """Set handlers for given layer."""
@@ -176,6 +177,9 @@ class VirtualMachine(CommandVisitor):
 
     def on_paste_layer(self, command: PasteLayer) -> None:
         """Visit `PasteLayer` command."""
+        if command.source_layer_id in self._empty_layers:
+            # Pasting layer without any content has no effect.
+            return
         self._on_paste_layer_handler(command)
 
     def on_paste_layer_eager(self, command: PasteLayer) -> None:
@@ -195,7 +199,7 @@ class VirtualMachine(CommandVisitor):
 
     def on_start_layer(self, command: StartLayer) -> None:
         """Visit `StartLayer` command."""
-        if command.id in self._layers:
+        if command.id in self._layers or command.id in self._empty_layers:
             raise LayerAlreadyExistsError(command.id)
 
         if command.box is None:
@@ -259,20 +263,22 @@ class VirtualMachine(CommandVisitor):
 
         elif isinstance(top_layer, DeferredLayer):
             box = self._calculate_deferred_layer_box(top_layer)
-            if box is None:
+            if box is None or box.width <= 0 or box.height <= 0:
                 if self._fail_on_empty_auto_sized_layer:
                     raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
-                return
-
-            new_layer = self.create_eager_layer(
-                top_layer.layer_id, top_layer.origin, box
-            )
-            self.set_layer(top_layer.layer_id, new_layer)
+                del self._layers[top_layer.layer_id]
+                self._empty_layers.add(top_layer.layer_id)
 
-            self.push_layer_to_stack(new_layer)
-            self.set_eager_handlers()
-            self._eval_deferred_commands(top_layer.commands)
-            self.pop_layer_from_stack()
+            else:
+                new_layer = self.create_eager_layer(
+                    top_layer.layer_id, top_layer.origin, box
+                )
+                self.set_layer(top_layer.layer_id, new_layer)
+
+                self.push_layer_to_stack(new_layer)
+                self.set_eager_handlers()
+                self._eval_deferred_commands(top_layer.commands)
+                self.pop_layer_from_stack()
 
         else:
             raise NotImplementedError(type(top_layer))
-- 
2.43.0


From 44aa3686b41668fc2873d7199fcfa7673e6c9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:12 +0000
Subject: [PATCH 19/65] fix: arc with coincident start and end angle hung or
 crashed virtual machines

---
 src/pygerber/vm/pillow/vm.py  | 7 +++++++
 src/pygerber/vm/shapely/vm.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index b57a680..82b6a96 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -381,6 +381,13 @@ class PillowVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
+        if start_angle == end_angle:
+            # Arc which ends at the angle it started from is a full circle.
+            if command.clockwise:
+                start_angle += FULL_ANGLE_DEGREES
+            else:
+                end_angle += FULL_ANGLE_DEGREES
+
         angle_delta = abs(start_angle - end_angle)
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         angle_length_pixels = self.to_pixel(angle_length)
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 749971b..ed8d3fd 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -317,6 +317,13 @@ class ShapelyVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
+        if start_angle == end_angle:
+            # Arc which ends at the angle it started from is a full circle.
+            if command.clockwise:
+                start_angle += FULL_ANGLE_DEGREES
+            else:
+                end_angle += FULL_ANGLE_DEGREES
+
         angle_delta = abs(start_angle - end_angle)
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         segment_count = self.angle_length_to_segment_count(angle_length)
-- 
2.43.0


From 943d37bbdc099815dabe2ca3eea2e7d5a4095920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:27 +0000
Subject: [PATCH 20/65] fix: bounding box of counter clockwise full circle arc
 did not contain it

---
 src/pygerber/vm/commands/shape_segments/arc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 616851d..58cfdbc 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -84,7 +84,7 @@ class Arc(ShapeSegment):
             self.get_relative_end_point(),
         ]
         if not self.clockwise:
-            total_angle = 360 - total_angle
+            total_angle = (360 - total_angle) or 360
             angle_x_plus = 360 - angle_x_plus
             angle_y_minus = 360 - angle_y_minus
             angle_x_minus = 360 - angle_x_minus
-- 
2.43.0


From 6df97cde1787a1607d998c40c801f67b4c3d6616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:29 +0000
Subject: [PATCH 21/65] fix: raster images of files in inches were rendered
 25.4 times too small

---
 src/pygerber/gerber/api/_gerber_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index f21ece3..d7ca4d6 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -610,15 +610,17 @@ class GerberFile:
         style = self._dispatch_style(style)
 
         rvmc = self._get_rvmc()
+        unit_mode = self._get_final_state().unit_mode
         result = render(
             rvmc,
             backend="pillow",
-            dpmm=dpmm,
+            # Commands are expressed in units used by the file.
+            dpmm=dpmm * 25.4 if unit_mode == UnitMode.IMPERIAL else dpmm,
         )
         assert isinstance(result, PillowResult)
         return PillowImage(
             image_space=ImageSpace(
-                units=self._get_final_state().unit_mode,
+                units=unit_mode,
                 box=result.main_box,
                 dpmm=dpmm,
             ),
-- 
2.43.0


From a85ee49d4722074c9b64fedff9710190cb86a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 22/65] fix: ordering and inequality of text positions
 contradicted equality

---
 src/pygerber/common/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/common/position.py b/src/pygerber/common/position.py
index 95861f5..c7417a7 100644
--- a/src/pygerber/common/position.py
+++ b/src/pygerber/common/position.py
@@ -54,7 +54,7 @@ class Position:
     def __ne__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line != __value.line and self.column != __value.column
+        return self.line != __value.line or self.column != __value.column
 
     def __gt__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
@@ -66,7 +66,7 @@ class Position:
     def __ge__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line >= __value.line or (
+        return self.line > __value.line or (
             self.line == __value.line and self.column >= __value.column
         )
 
@@ -80,6 +80,6 @@ class Position:
     def __le__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line <= __value.line or (
+        return self.line < __value.line or (
             self.line == __value.line and self.column <= __value.column
         )
-- 
2.43.0


From 9d16e63d48765e526cadba98754c8b7eb0bf6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 23/65] fix: drill map files could not be rendered with alpha
 color map

---
 src/pygerber/gerber/api/_enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index 1437b4d..c20546d 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -243,6 +243,7 @@ DEFAULT_ALPHA_COLOR_MAP: COLOR_MAP_T = {
     FileTypeEnum.VCUT: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.VIAFILL: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.PADS: Style.presets.PASTE_MASK_ALPHA,
+    FileTypeEnum.DRILLMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.FABRICATIONDRAWING: Style.presets.SILK_ALPHA,
     FileTypeEnum.VCUTMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.ASSEMBLYDRAWING: Style.presets.SILK_ALPHA,
-- 
2.43.0


From 49122ce78eb86adfc55bee6ca11b8691d6a29972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 24/65] fix: numbered layer extensions in upper case were not
 recognized

---
 src/pygerber/gerber/api/_enums.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index c20546d..9719c90 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -156,6 +156,8 @@ class FileTypeEnum(Enum):
 
     @classmethod
     def infer_from_extension(cls, extension: str) -> FileTypeEnum:
+        extension = extension.lower()
+
         if re.match(r"\.g[0-9]+", extension):
             return FileTypeEnum.COPPER
 
@@ -166,7 +168,7 @@ class FileTypeEnum(Enum):
             return FileTypeEnum.COPPER
 
         return GERBER_EXTENSION_TO_FILE_TYPE_MAPPING.get(
-            extension.lower(), FileTypeEnum.UNDEFINED
+            extension, FileTypeEnum.UNDEFINED
         )
 
 
-- 
2.43.0


From 3ac7939031e3703e70a879dfa78dae2c342c3ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 25/65] fix: NON_PLATED file type selected in command line was
 treated as undefined

---
 src/pygerber/console/gerber.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c8e88ee..825e560 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -144,7 +144,7 @@ def png(
 ) -> None:
     """Convert Gerber image file to PNG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -231,7 +231,7 @@ def jpeg(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to JPEG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -299,7 +299,7 @@ def tiff(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to TIFF image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -336,7 +336,7 @@ def bmp(
 ) -> None:
     """Convert Gerber image file to BMP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -387,7 +387,7 @@ def webp(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to WEBP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -419,7 +419,7 @@ if is_shapely_available():
     ) -> None:
         """Convert Gerber image file to SVG image."""
         style_obj = _sanitize_style(style, foreground, background)
-        file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
         if implementation.lower() == "shapely":
             result = file.render_with_shapely(style_obj)
@@ -529,7 +529,7 @@ def merge_convert_png(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
@@ -563,7 +563,7 @@ def merge_convert_jpeg(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
-- 
2.43.0


From 5f670d8a212b03f63f6bb664bca07b0f4ca02142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 26/65] fix: composite view of files in different units was
 sized using raw file units

---
 src/pygerber/gerber/api/_composite_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 29eee02..0b79399 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -67,10 +67,10 @@ class CompositeView:
             file.render_with_pillow(dpmm=dpmm) for file in self.files
         ]
 
-        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x)
-        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y)
-        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x)
-        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y)
+        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
+        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
+        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
+        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)
 
         width_pixels = (
             max_x_image.get_image_space().max_x_pixels
-- 
2.43.0


From 978b0cacd26a2b9f14dc78ba72ae5c9460644dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 27/65] fix: inner layers of a job file project were ordered as
 text

---
 src/pygerber/gerber/api/_gerber_job_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ad41c84..368ec74 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -229,7 +229,7 @@ class GerberJobFile(_ModelType):
             top=CompositeView(extract_and_sort_files(top)),
             inner=(
                 CompositeView(extract_and_sort_files(inner[key]))
-                for key in sorted(inner)
+                for key in sorted(inner, key=int)
             ),
             bottom=CompositeView(extract_and_sort_files(bottom)),
         )
-- 
2.43.0


From e0cb248b8a6f528c4bcd1cd263ab22a0e41ddf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 28/65] fix: builder traces created after region inherited
 interpolation mode of the region

---
 src/pygerber/builder/gerber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index fe9fd49..528d532 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -1639,6 +1639,7 @@ class RegionCreator:
                 else:
                     raise NotImplementedError
 
+            self._builder._plot_mode = mode  # noqa: SLF001
             yield G37()
             yield D02(
                 x=self._builder._pack_x(self._begin[0]),  # noqa: SLF001
-- 
2.43.0


From 74d2d4d31a3348a69e453dbf55c58b549ab3a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 29/65] fix: docs lexer crashed when MKDOCS_MODE was not set

---
 src/pygerber/gerber/pygments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/pygments.py b/src/pygerber/gerber/pygments.py
index 777cb84..9431a4e 100644
--- a/src/pygerber/gerber/pygments.py
+++ b/src/pygerber/gerber/pygments.py
@@ -181,7 +181,7 @@ if is_pygments_available():
 
         def get_tokens_unprocessed(self, text: Any) -> Any:
             """Get tokens from the text."""
-            if os.environ["MKDOCS_MODE"] == "1":
+            if os.environ.get("MKDOCS_MODE") == "1":
                 for index, token, value in super().get_tokens_unprocessed(text):
                     if token is Name and value in self.EXTRA_SYMBOLS:
                         yield index, self.EXTRA_SYMBOLS[value], value
-- 
2.43.0


From e8ea924f9e0c16b68a7540db9937b4c56a1cb161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 30/65] fix: regions were compiled without their object
 attributes

---
 src/pygerber/gerber/compiler/compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index f84c91f..be66208 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -609,6 +609,7 @@ class Compiler(StateTrackingVisitor):
             metadata.update(
                 _convert_attributes_to_metadata(self.state.attributes.object_attributes)
             )
+            return metadata
         return None
 
     def on_flush_region(self) -> None:
-- 
2.43.0


From 2d32455b0f9bfac169c6a0e929082b9ab822b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:30 +0000
Subject: [PATCH 31/65] fix: next free aperture code crashed when no apertures
 were defined

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 219e9cc..1fc0b85 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -362,8 +362,11 @@ class ApertureStorage(_StateModel):
         """Get next free aperture code."""
         return (
             max(
-                int(aperture_id.lstrip("D"))
-                for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                (
+                    int(aperture_id.lstrip("D"))
+                    for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                ),
+                default=9,
             )
             + 1
         )
-- 
2.43.0


From 045f9572085f5ab711d6c581795010b8fe59d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:30 +0000
Subject: [PATCH 32/65] fix: node finder did not descend into the only command
 of a file

---
 src/pygerber/gerber/ast/node_finder.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 002c0b4..1283bc5 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -50,10 +50,6 @@ class NodeFinder(AstVisitor):
         if len(node.nodes) == 0:
             return node
 
-        if len(node.nodes) == 1:
-            self.return_node = node.nodes[0]
-            return node
-
         self.return_node = self._bin_search(node.nodes)
 
         return node
-- 
2.43.0


From e61da3ab59bf6a3cd9f931eed84d2c49b24486bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 33/65] fix: MD5 attribute check dropped last character before
 the attribute unless it was a line break

---
 src/pygerber/gerber/ast/nodes/attribute/TF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TF.py b/src/pygerber/gerber/ast/nodes/attribute/TF.py
index e16002f..eece283 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TF.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TF.py
@@ -225,7 +225,7 @@ class TF_MD5(TF):  # noqa: N801
             raise SourceNotAvailableError(self)
 
         source = (
-            self.source_info.source[: self.source_info.location - 1]
+            self.source_info.source[: self.source_info.location]
             .replace("\n", "")
             .replace("\r", "")
             .encode("utf-8")
-- 
2.43.0


From 416ecfd0960d3c8111a1d98dcb2036b6928d3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 34/65] fix: part number object attribute reported misspelled
 name, so it could not be deleted by name

---
 src/pygerber/gerber/ast/nodes/attribute/TO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TO.py b/src/pygerber/gerber/ast/nodes/attribute/TO.py
index c7b25fc..fa537aa 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TO.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TO.py
@@ -162,7 +162,7 @@ class TO_CMNP(TO):  # noqa: N801
     @property
     def attribute_name(self) -> str:
         """Get attribute name."""
-        return ".CMNP"
+        return ".CMPN"
 
     def visit(self, visitor: AstVisitor) -> TO_CMNP:
         """Handle visitor call."""
-- 
2.43.0


From c41f02cd7bf9fdb475f69f66322aa02e2f7bcee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:39 +0000
Subject: [PATCH 35/65] fix: parser replaced tabs with spaces, altering strings
 and source positions

---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index 20c4046..34e7a4e 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -211,6 +211,7 @@ class Grammar:
             )
             .set_results_name("root_node")
             .set_parse_action(_)
+            .parse_with_tabs()
         )
 
         if self.enable_packrat:
@@ -247,6 +248,7 @@ class Grammar:
             )
             .set_results_name("root_node")
             .set_parse_action(_)
+            .parse_with_tabs()
         )
 
         if self.enable_packrat:
-- 
2.43.0


From dd1e097a204a262b76ba5df30488842b7a669358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:18 +0000
Subject: [PATCH 36/65] fix: parsing time of macro expressions was exponential
 in nesting of parentheses

---
 .../gerber/parser/pyparsing/grammar.py        | 74 ++++++++++---------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index 34e7a4e..e6f7022 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -1400,6 +1400,28 @@ class Grammar:
     @pp.cached_property
     def expression(self) -> pp.ParserElement:
         """Create a parser element capable of parsing expressions."""
+
+        # Operands must be parsed only once on each precedence level, looking ahead for
+        # the operator makes parsing time exponential in nesting of parentheses.
+        def _binary(
+            node_type: Type[Node],
+        ) -> Callable[[str, int, pp.ParseResults], Node]:
+            def _(s: str, loc: int, tokens: pp.ParseResults) -> Node:
+                head, *tail = tokens.as_list()[::2]
+                if not tail:
+                    return cast("Node", head)
+                return self.get_cls(node_type)(
+                    source_info=SourceInfo(
+                        source=s,
+                        location=loc,
+                        length=sum(len(t) for t in tokens.as_list()),
+                    ),
+                    head=head,
+                    tail=tail,
+                )
+
+            return _
+
         expr = pp.Forward()
         factor = (
             self.variable
@@ -1412,9 +1434,9 @@ class Grammar:
         op_expr = pp.Literal("-")
 
         this_expr = pp.Forward()
-        match_expr = pp.FollowedBy(op_expr + this_expr) + (
-            op_expr + this_expr("operand")
-        ).set_parse_action(self.make_unpack_callback(Neg))
+        match_expr = (op_expr + this_expr("operand")).set_parse_action(
+            self.make_unpack_callback(Neg)
+        )
         this_expr <<= match_expr | last_expr
         last_expr = this_expr
 
@@ -1422,9 +1444,9 @@ class Grammar:
         op_expr = pp.Literal("+")
 
         this_expr = pp.Forward()
-        match_expr = pp.FollowedBy(op_expr + this_expr) + (
-            op_expr + this_expr("operand")
-        ).set_parse_action(self.make_unpack_callback(Pos))
+        match_expr = (op_expr + this_expr("operand")).set_parse_action(
+            self.make_unpack_callback(Pos)
+        )
         this_expr <<= match_expr | last_expr
         last_expr = this_expr
 
@@ -1432,52 +1454,36 @@ class Grammar:
         op_expr = pp.Literal("/")
 
         this_expr = pp.Forward()
-        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
-            last_expr("head")
-            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
-                1, ...
-            ]
-        ).set_parse_action(self.make_unpack_callback(Div))
-        this_expr <<= match_expr | last_expr
+        this_expr <<= (last_expr + (op_expr + last_expr)[...]).set_parse_action(
+            _binary(Div)
+        )
         last_expr = this_expr
 
         # Binary x|X operator
         op_expr = pp.one_of(["x", "X"])
 
         this_expr = pp.Forward()
-        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
-            last_expr("head")
-            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
-                1, ...
-            ]
-        ).set_parse_action(self.make_unpack_callback(Mul))
-        this_expr <<= match_expr | last_expr
+        this_expr <<= (last_expr + (op_expr + last_expr)[...]).set_parse_action(
+            _binary(Mul)
+        )
         last_expr = this_expr
 
         # Binary - operator
         op_expr = pp.Literal("-")
 
         this_expr = pp.Forward()
-        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
-            last_expr("head")
-            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
-                1, ...
-            ]
-        ).set_parse_action(self.make_unpack_callback(Sub))
-        this_expr <<= match_expr | last_expr
+        this_expr <<= (last_expr + (op_expr + last_expr)[...]).set_parse_action(
+            _binary(Sub)
+        )
         last_expr = this_expr
 
         # Binary - operator
         op_expr = pp.Literal("+")
 
         this_expr = pp.Forward()
-        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
-            last_expr("head")
-            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
-                1, ...
-            ]
-        ).set_parse_action(self.make_unpack_callback(Add))
-        this_expr <<= match_expr | last_expr
+        this_expr <<= (last_expr + (op_expr + last_expr)[...]).set_parse_action(
+            _binary(Add)
+        )
         last_expr = this_expr
 
         expr <<= last_expr
-- 
2.43.0


From 7ac6604d3c7b0a1f4756dbbf925e2843f5502fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:19 +0000
Subject: [PATCH 37/65] fix: formatter lost indentation of enclosing body after
 a nested body without indentation

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 7e9149c..aeea9bd 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -182,7 +182,7 @@ def _decrease_base_indent(
             assert isinstance(self, Formatter)
 
             indent_delta = getattr(self, variable_name)
-            if self._base_indent.endswith(indent_delta):
+            if indent_delta and self._base_indent.endswith(indent_delta):
                 self._base_indent = self._base_indent[: -len(indent_delta)]
 
             return function(*args, **kwargs)
-- 
2.43.0


From c534f8c543a179613486f0e079868578dd02975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:39 +0000
Subject: [PATCH 38/65] fix: formatter invented empty fields of
 GenerationSoftware and ProjectId attributes

---
 src/pygerber/gerber/formatter/formatter.py | 33 ++++++++--------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index aeea9bd..9819cc6 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -411,6 +411,13 @@ class Formatter(AstVisitor):
     def _write(self, value: str) -> None:
         self.output.write(value)
 
+    def _write_trailing_optional(self, *fields: Optional[str]) -> None:
+        present = list(fields)
+        while present and present[-1] is None:
+            present.pop()
+        for field in present:
+            self._write(f",{field or ''}")
+
     @_decrease_base_indent("block_aperture_body_indent")
     @_decorator_insert_base_indent
     def on_ab_close(self, node: ABclose) -> ABclose:
@@ -684,17 +691,9 @@ class Formatter(AstVisitor):
     ) -> TF_GenerationSoftware:
         """Handle `TF_GenerationSoftware` node."""
         with self._extended_command("TF.GenerationSoftware"):
-            self._write(",")
-            if node.vendor is not None:
-                self._write(node.vendor)
-
-            self._write(",")
-            if node.application is not None:
-                self._write(node.application)
-
-            self._write(",")
-            if node.version is not None:
-                self._write(node.version)
+            self._write_trailing_optional(
+                node.vendor, node.application, node.version
+            )
 
         return node
 
@@ -702,17 +701,7 @@ class Formatter(AstVisitor):
     def on_tf_project_id(self, node: TF_ProjectId) -> TF_ProjectId:
         """Handle `TF_ProjectId` node."""
         with self._extended_command("TF.ProjectId"):
-            self._write(",")
-            if node.name is not None:
-                self._write(node.name)
-
-            self._write(",")
-            if node.guid is not None:
-                self._write(node.guid)
-
-            self._write(",")
-            if node.revision is not None:
-                self._write(node.revision)
+            self._write_trailing_optional(node.name, node.guid, node.revision)
 
         return node
 
-- 
2.43.0


From 5720f2601cf77e5e0ceeeff6550b1606e657d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:39 +0000
Subject: [PATCH 39/65] fix: formatter with explicit parenthesis glued unary
 operators into unparsable sequences

---
 src/pygerber/gerber/formatter/formatter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 9819cc6..956977a 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -1177,12 +1177,14 @@ class Formatter(AstVisitor):
 
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:
         """Handle `Parenthesis` node."""
-        if not self.explicit_parenthesis:
+        # Unary operators never write their own parenthesis.
+        keep = not self.explicit_parenthesis or isinstance(node.inner, (Neg, Pos))
+        if keep:
             self._write("(")
 
         node.inner.visit(self)
 
-        if not self.explicit_parenthesis:
+        if keep:
             self._write(")")
 
         return node
-- 
2.43.0


From 6794013a5e392383af2184f115d6090d70648273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:53 +0000
Subject: [PATCH 40/65] fix: regions were compiled without aperture attributes
 in force

---
 src/pygerber/gerber/compiler/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index be66208..505802e 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -607,7 +607,9 @@ class Compiler(StateTrackingVisitor):
                 self.state.attributes.object_attributes
             )
             metadata.update(
-                _convert_attributes_to_metadata(self.state.attributes.object_attributes)
+                _convert_attributes_to_metadata(
+                    self.state.attributes.aperture_attributes
+                )
             )
             return metadata
         return None
-- 
2.43.0


From cbc050f240b81e414b38ff538dbde385daa1f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:48 +0000
Subject: [PATCH 41/65] fix: pasting missing or unfinished layer into auto
 sized layer raised KeyError or AssertionError

---
 src/pygerber/vm/vm.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index 9a9067b..dd18394 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -15,6 +15,7 @@ from pygerber.vm.types import (
     LayerNotFoundError,
     NoLayerSetError,
     NoMainLayerError,
+    PasteDeferredLayerNotAllowedError,
     Style,
     Vector,
 )
@@ -306,9 +307,7 @@ class VirtualMachine(CommandVisitor):
             box = cmd.outer_box
 
         elif isinstance(cmd, PasteLayer):
-            layer = self._layers[cmd.source_layer_id]
-            assert isinstance(layer, EagerLayer)
-            box = layer.box + cmd.center - layer.origin
+            box = self._get_paste_box(cmd)
 
         else:
             raise NotImplementedError(type(cmd))
@@ -318,15 +317,21 @@ class VirtualMachine(CommandVisitor):
                 box = box + cmd.outer_box
 
             elif isinstance(cmd, PasteLayer):
-                layer = self._layers[cmd.source_layer_id]
-                assert isinstance(layer, EagerLayer)
-                box = box + (layer.box + cmd.center - layer.origin)
+                box = box + self._get_paste_box(cmd)
 
             else:
                 raise NotImplementedError(type(cmd))
 
         return box
 
+    def _get_paste_box(self, command: PasteLayer) -> Box:
+        layer = self.get_layer(command.source_layer_id)
+        if isinstance(layer, DeferredLayer):
+            raise PasteDeferredLayerNotAllowedError(command.source_layer_id)
+
+        assert isinstance(layer, EagerLayer)
+        return layer.box + command.center - layer.origin
+
     def _eval_deferred_commands(self, commands: list[DrawCmdT]) -> None:
         for cmd in commands:
             cmd.visit(self)
-- 
2.43.0


From a8a8dcc1b190aa75d295ed47bfb31caad49c3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:13 +0000
Subject: [PATCH 42/65] fix: exact quarter turn of a composed matrix reversed
 direction of arcs

---
 src/pygerber/vm/commands/shape_segments/arc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 58cfdbc..e7f4f56 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -109,7 +109,8 @@ class Arc(ShapeSegment):
             center=self.center.transform(transform),
             clockwise=(
                 self.clockwise
-                if transform[0][0] * transform[1][1] > 0
+                if transform[0][0] * transform[1][1]
+                > transform[0][1] * transform[1][0]
                 else not self.clockwise
             ),
         )
-- 
2.43.0


From cb261c96aee745c44311d03787782257c649577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:26 +0000
Subject: [PATCH 43/65] fix: clear paste of a layer without dark shapes crashed
 shapely virtual machine

---
 src/pygerber/vm/shapely/vm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index ed8d3fd..c67e32a 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -405,6 +405,9 @@ class ShapelyVirtualMachine(VirtualMachine):
             for geom in source_layer.shape
         ]
 
+        if not transformed_shape:
+            return
+
         if command.is_negative:
             dest_layer_tree = shtree.STRtree(self.layer.shape)
             dest_idx = dest_layer_tree.query(transformed_shape).T
-- 
2.43.0


From eea1f1179be90ae6452adfb116857c227c9ee6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:54 +0000
Subject: [PATCH 44/65] fix: rounding at ends of arcs made shapely virtual
 machine lose whole arc strokes

---
 src/pygerber/vm/shapely/vm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index c67e32a..a939736 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -371,11 +371,13 @@ class ShapelyVirtualMachine(VirtualMachine):
         apply_delta: Callable[[float, float], float],
         compare_angles: Callable[[float, float], bool],
     ) -> Generator[float, None, None]:
-        current_angle = start
-        while compare_angles(current_angle, end):
+        # Start and end points of an arc are known exactly, hence only angles strictly
+        # between them are generated. Points recalculated from start and end angles
+        # would differ from exact ones by rounding errors, making outline cross itself.
+        current_angle = apply_delta(start, delta)
+        while compare_angles(apply_delta(current_angle, delta / 2), end):
             yield current_angle
             current_angle = apply_delta(current_angle, delta)
-        yield end
 
     def on_paste_layer_eager(self, command: PasteLayer) -> None:
         """Visit `PasteLayer` command."""
-- 
2.43.0


From 6d5aa2947a24708417a68b86ac2ada57f229eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:00 +0000
Subject: [PATCH 45/65] fix: composite view squared transparency of layers

Pasting a layer with its own alpha channel as mask also blended the alpha
channel, so a translucent layer came out with wrong colour and opacity, even
when it was the only one. Use alpha compositing.
---
 src/pygerber/gerber/api/_composite_view.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 0b79399..f5b0687 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -84,7 +84,7 @@ class CompositeView:
         image = Image.new("RGBA", (width_pixels, height_pixels))
 
         for sub_image in sub_images:
-            image.paste(
+            image.alpha_composite(
                 sub_image.get_image(),
                 (
                     abs(
@@ -96,7 +96,6 @@ class CompositeView:
                         - sub_image.get_image_space().max_y_pixels
                     ),
                 ),
-                mask=sub_image.get_image().getchannel("A"),
             )
 
         return CompositePillowImage(sub_images, image)
-- 
2.43.0


From 6532f1007227691fd0dcb2a116bba5565e4e7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:00 +0000
Subject: [PATCH 46/65] fix: listeners of lint rules were called twice for some
 nodes

Definitions, attributes, expressions, coordinates and the file reached
listeners once through their own callback and again through the callback of
their base class (or end of file), so rules reported everything twice.
---
 .../gerber/linter/event_ast_visitor.py        | 34 -------------------
 1 file changed, 34 deletions(-)

diff --git a/src/pygerber/gerber/linter/event_ast_visitor.py b/src/pygerber/gerber/linter/event_ast_visitor.py
index 8b996c3..4164999 100644
--- a/src/pygerber/gerber/linter/event_ast_visitor.py
+++ b/src/pygerber/gerber/linter/event_ast_visitor.py
@@ -10,7 +10,6 @@ from pygerber.gerber.ast.nodes import Node
 if TYPE_CHECKING:
     from pygerber.gerber.ast.nodes import (
         AB,
-        AD,
         ADC,
         ADO,
         ADP,
@@ -51,11 +50,8 @@ if TYPE_CHECKING:
         OF,
         SF,
         SR,
-        TA,
         TD,
-        TF,
         TF_MD5,
-        TO,
         TO_C,
         TO_CMNP,
         TO_N,
@@ -78,14 +74,12 @@ if TYPE_CHECKING:
         Code21,
         Code22,
         Constant,
-        Coordinate,
         CoordinateI,
         CoordinateJ,
         CoordinateX,
         CoordinateY,
         Div,
         Dnn,
-        Expression,
         File,
         Invalid,
         Mul,
@@ -158,10 +152,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_ab_open(node)
 
-    def on_ad(self, node: AD) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ad(node)
-
     def on_adc(self, node: ADC) -> ADC:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_adc(node)
@@ -206,10 +196,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_sr_open(node)
 
-    def on_ta(self, node: TA) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ta(node)
-
     def on_ta_user_name(self, node: TA_UserName) -> TA_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_ta_user_name(node)
@@ -234,10 +220,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_td(node)
 
-    def on_tf(self, node: TF) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_tf(node)
-
     def on_tf_user_name(self, node: TF_UserName) -> TF_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_tf_user_name(node)
@@ -284,10 +266,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_tf_md5(node)
 
-    def on_to(self, node: TO) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_to(node)
-
     def on_to_user_name(self, node: TO_UserName) -> TO_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_to_user_name(node)
@@ -488,10 +466,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_constant(node)
 
-    def on_expression(self, node: Expression) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_expression(node)
-
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_parenthesis(node)
@@ -504,10 +478,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_variable(node)
 
-    def on_coordinate(self, node: Coordinate) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_coordinate(node)
-
     def on_coordinate_x(self, node: CoordinateX) -> CoordinateX:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_coordinate_x(node)
@@ -604,10 +574,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_file(node)
 
-    def on_end_of_file(self, node: File) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_end_of_file(node)
-
     def on_invalid(self, node: Invalid) -> Invalid:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_invalid(node)
-- 
2.43.0


From 695296fac5fb582ded30ea9e0e7d95f8ce4adc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:01 +0000
Subject: [PATCH 47/65] fix: hover visualized counterclockwise arcs as
 clockwise ones

---
 src/pygerber/gerber/language_server/_server/hover/gerber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 17c2ca9..66c3c9e 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -20,6 +20,7 @@ from pygerber.gerber.ast.nodes import (
     FS,
     G01,
     G02,
+    G03,
     G74,
     G75,
     LM,
@@ -446,7 +447,7 @@ class GerberHoverCreator(AstVisitor):
             {
                 PlotMode.LINEAR: G01(),
                 PlotMode.ARC: G02(),
-                PlotMode.CCW_ARC: G02(),
+                PlotMode.CCW_ARC: G03(),
             }[self.state.plot_mode]
         )
         nodes.append(
-- 
2.43.0


From 5ad34722770724d3de888f75235c30a0c99c3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:28 +0000
Subject: [PATCH 48/65] fix: hover over use of block aperture failed as block
 was missing from visualization

---
 .../gerber/language_server/_server/hover/gerber.py        | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 66c3c9e..5f46bc5 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -24,6 +24,7 @@ from pygerber.gerber.ast.nodes import (
     G74,
     G75,
     LM,
+    LP,
     LR,
     LS,
     M02,
@@ -429,6 +430,10 @@ class GerberHoverCreator(AstVisitor):
         )
 
         nodes.append(MO(mode=self.state.unit_mode))
+        nodes.extend(self.state.apertures.macros.values())
+        nodes.extend(self.state.apertures.apertures.values())
+        nodes.extend(self.state.apertures.blocks.values())
+        nodes.append(LP(polarity=Polarity.Dark))
         nodes.append(
             D02(
                 x=CoordinateX(
@@ -439,9 +444,6 @@ class GerberHoverCreator(AstVisitor):
                 ),
             )
         )
-        nodes.extend(self.state.apertures.macros.values())
-        nodes.extend(self.state.apertures.apertures.values())
-        nodes.extend(self.state.apertures.macros.values())
 
         nodes.append(
             {
-- 
2.43.0


From cc5d59d4804375dff65ac41b00111bca00b3b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:28 +0000
Subject: [PATCH 49/65] fix: hover over commands drawing with zero size
 aperture failed with division by zero

---
 src/pygerber/gerber/language_server/_server/hover/gerber.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 5f46bc5..8078f4b 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -473,6 +473,9 @@ class GerberHoverCreator(AstVisitor):
         bytecode = compile(File(nodes=nodes))
         temp_result = render(bytecode, dpmm=1)
 
+        if temp_result.main_box.width == 0:
+            return
+
         dpmm = 200 / temp_result.main_box.width
         result = render(bytecode, dpmm=dpmm)
         assert isinstance(result, PillowResult)
-- 
2.43.0


From 2b2705ebab05727c98c57fa1c0b0a1c1e451529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:28 +0000
Subject: [PATCH 50/65] fix: hover over contour of a region failed when no
 aperture was selected

---
 .../gerber/language_server/_server/hover/gerber.py    | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 8078f4b..4ba66bb 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -515,11 +515,12 @@ class GerberHoverCreator(AstVisitor):
 
         self._object_attributes()
 
-        self._sep()
-        self._print_line("### Visualization")
-        self._single_break()
-        self._visualize_draw_op([node])
-        self._single_break()
+        if self.state.current_aperture_id is not None:
+            self._sep()
+            self._print_line("### Visualization")
+            self._single_break()
+            self._visualize_draw_op([node])
+            self._single_break()
 
         self._spec_ref(spec.d01())
 
-- 
2.43.0


From 7aff2926fd75dbe481bd600053e6ef8e6505f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:28 +0000
Subject: [PATCH 51/65] fix: hover inside of AB and SR blocks reported state
 from end of the block

---
 .../language_server/_server/hover/gerber.py   | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 4ba66bb..2a8402c 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -4,11 +4,12 @@ import base64
 import io
 from contextlib import contextmanager, suppress
 from io import StringIO
-from typing import TYPE_CHECKING, Generator, Optional, cast
+from typing import TYPE_CHECKING, Generator, Iterable, Optional, cast
 
 from pygerber.gerber import formatter
 from pygerber.gerber.ast.ast_visitor import AstVisitor
 from pygerber.gerber.ast.nodes import (
+    AB,
     AD,
     ADC,
     ADO,
@@ -29,6 +30,7 @@ from pygerber.gerber.ast.nodes import (
     LS,
     M02,
     MO,
+    SR,
     TA,
     TD,
     TF,
@@ -94,23 +96,35 @@ class LimitedStateTrackingVisitor(StateTrackingVisitor):
         """Handle `File` node."""
         with suppress(ProgramStop):
             try:
-                for command in node.nodes:
-                    source_info = command.source_info
-                    assert source_info is not None
-
-                    if source_info.end_location > self.max_location:
-                        raise ProgramStop(M02())
-
-                    try:
-                        command.visit(self)
-                    except Exception as e:
-                        if self.on_exception(command, e):
-                            raise
+                self._visit_commands(node.nodes)
             finally:
                 self.on_end_of_file(node)
 
         return node
 
+    def _visit_commands(self, commands: Iterable[Node]) -> None:
+        for command in commands:
+            if isinstance(command, (AB, SR)):
+                close_info = command.close.source_info
+                assert close_info is not None
+
+                if close_info.end_location > self.max_location:
+                    self._visit_commands(
+                        (command.open, *command.nodes, command.close)
+                    )
+
+            source_info = command.source_info
+            assert source_info is not None
+
+            if source_info.end_location > self.max_location:
+                raise ProgramStop(M02())
+
+            try:
+                command.visit(self)
+            except Exception as e:
+                if self.on_exception(command, e):
+                    raise
+
 
 class ToMarkdown(AstVisitor):
     """Convert Gerber Node to markdown."""
-- 
2.43.0


From ca45e1c24d08ce00d4c1e394bccf937faa25e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:28 +0000
Subject: [PATCH 52/65] fix: hover reported offset of arc center as its
 position

---
 .../language_server/_server/hover/gerber.py      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 2a8402c..d430985 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -347,6 +347,20 @@ class GerberHoverCreator(AstVisitor):
             f"{message} &nbsp;&nbsp;&nbsp; _x =_ `{x_value}` _y =_ `{y_value}`"
         )
 
+    def _append_arc_center(self, node: D01) -> None:
+        fmt = self.state.coordinate_format
+        if fmt is None:
+            return
+
+        x_value = self.state.current_x + (fmt.unpack_x(node.i.value) if node.i else 0.0)
+        y_value = self.state.current_y + (fmt.unpack_y(node.j.value) if node.j else 0.0)
+
+        self._sep()
+        self._print_line(
+            "Arc center at: &nbsp;&nbsp;&nbsp; "
+            f"_x =_ `{x_value}` _y =_ `{y_value}`"
+        )
+
     def _current_aperture(self) -> None:
         self._print(f"`Aperture: {self.state.current_aperture_id}`")
 
@@ -515,7 +529,7 @@ class GerberHoverCreator(AstVisitor):
         )
 
         if self.state.plot_mode != PlotMode.LINEAR:
-            self._append_xy("Arc center at:", node.i, node.j)
+            self._append_arc_center(node)
 
         self._sep()
         self._current_aperture()
-- 
2.43.0


From e19e80abd49b4c90b0e5f5f4ffec54446c2ea6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:52 +0000
Subject: [PATCH 53/65] fix: node finder missed commands inside of a block
 opened further to the right

---
 src/pygerber/gerber/ast/node_finder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 1283bc5..bf96ad4 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -73,7 +73,16 @@ class NodeFinder(AstVisitor):
         if len(nodes) == 1:
             self.return_node = nodes[0]
             source_info = self.return_node.source_info
-            if source_info is not None and self.location.column < source_info.column:
+            is_inside_block = (
+                isinstance(self.return_node, (AB, AM, SR))
+                and source_info is not None
+                and self.location.line > source_info.line
+            )
+            if (
+                source_info is not None
+                and not is_inside_block
+                and self.location.column < source_info.column
+            ):
                 self.return_node = None
                 return None
 
-- 
2.43.0


From 17ba8c9d5766397bd24dc896427d589fbd24fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 54/65] fix: failing format command destroyed content of output
 file

---
 src/pygerber/console/gerber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 825e560..23f8969 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -497,8 +497,10 @@ def format_cmd(
     output_path = Path(output)
     file = GerberFile.from_file(source)
 
+    formatted_code = file.formats(options=options)
+
     with output_path.open("w") as f:
-        file.format(f, options=options)
+        f.write(formatted_code)
 
 
 @gerber.group("merge-convert")
-- 
2.43.0


From 1f139a440269dd67a7e98c34f98abe7ddf599b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:36 +0000
Subject: [PATCH 55/65] fix: lexer reported letters of signed coordinates as
 errors

---
 src/pygerber/gerber/pygments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/pygments.py b/src/pygerber/gerber/pygments.py
index 9431a4e..8ea7c85 100644
--- a/src/pygerber/gerber/pygments.py
+++ b/src/pygerber/gerber/pygments.py
@@ -40,10 +40,10 @@ if is_pygments_available():
 
         tokens: ClassVar[Dict[str, Any]] = {
             "root": [
-                (r"X(?=[0-9]+)", Keyword),
-                (r"Y(?=[0-9]+)", Keyword),
-                (r"I(?=[0-9]+)", Keyword),
-                (r"J(?=[0-9]+)", Keyword),
+                (r"X(?=[+-]?[0-9]+)", Keyword),
+                (r"Y(?=[+-]?[0-9]+)", Keyword),
+                (r"I(?=[+-]?[0-9]+)", Keyword),
+                (r"J(?=[+-]?[0-9]+)", Keyword),
                 # properties
                 (r"(?<=%)FS", Keyword),
                 (r"(?<=%FS)[LT][AI]", Keyword.Constant),
-- 
2.43.0


From 25ce0399bf4701f22a2a3578b4b86e7b2e8980c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:15 +0000
Subject: [PATCH 56/65] fix: vector images could not be saved to an open file

---
 src/pygerber/vm/shapely/vm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index a939736..7d064d2 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -9,7 +9,6 @@ import importlib.util
 import math
 import operator
 from contextlib import suppress
-from io import BytesIO
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
 
@@ -129,7 +128,7 @@ class ShapelyResult(Result):
             with Path(destination).open("wb") as file:
                 self._dump_svg(file, color, encoding=encoding)
 
-        elif isinstance(destination, (BinaryIO, BytesIO)):
+        elif hasattr(destination, "write"):
             self._dump_svg(destination, color, encoding=encoding)
 
         else:
-- 
2.43.0


From 4e0c11f32ad2a91da9a537f7fd00657a5b1e3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:15 +0000
Subject: [PATCH 57/65] fix: vector images were drawn with 60% of the opacity
 of the style

---
 src/pygerber/vm/shapely/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 7d064d2..35f7324 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -167,7 +167,7 @@ class ShapelyResult(Result):
         out.write(
             (
                 f'<g transform="{transform}">'
-                f"{self.shape.svg(scale_factor=0.0, fill_color=fill_color)}"
+                f"{self.shape.svg(0.0, fill_color=fill_color, opacity=1.0)}"
                 "</g>"
             )
             .replace('stroke="#555555"', 'stroke="#00000000"')
-- 
2.43.0


From f632de02c9d5617befc5b89a4bb2346f80f9c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:44 +0000
Subject: [PATCH 58/65] fix: pictures thinner than a pixel were rendered to
 empty images which could not be saved

---
 src/pygerber/vm/pillow/vm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index 82b6a96..029bdbb 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -275,8 +275,8 @@ class PillowEagerLayer(EagerLayer):
         self.origin = origin
         self.dpmm = dpmm
         self.pixel_size = (
-            self.to_pixel(self.box.width),
-            self.to_pixel(self.box.height),
+            max(1, self.to_pixel(self.box.width)),
+            max(1, self.to_pixel(self.box.height)),
         )
         self.image = Image.new("1", self.pixel_size, 0)
         self.draw = ImageDraw.Draw(self.image)
-- 
2.43.0


From 2086a66046235250749f86ff448a0b46b1300feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:44 +0000
Subject: [PATCH 59/65] fix: hover over tall and narrow objects rendered
 enormous pictures

---
 src/pygerber/gerber/language_server/_server/hover/gerber.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index d430985..b963f11 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -501,10 +501,11 @@ class GerberHoverCreator(AstVisitor):
         bytecode = compile(File(nodes=nodes))
         temp_result = render(bytecode, dpmm=1)
 
-        if temp_result.main_box.width == 0:
+        size = max(temp_result.main_box.width, temp_result.main_box.height)
+        if size == 0:
             return
 
-        dpmm = 200 / temp_result.main_box.width
+        dpmm = 200 / size
         result = render(bytecode, dpmm=dpmm)
         assert isinstance(result, PillowResult)
 
-- 
2.43.0


From 631c1d2095e3b585e77a1d5eecb854508b2ac17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:58 +0000
Subject: [PATCH 60/65] fix: conversion which fails to encode the image
 destroyed existing output file

---
 src/pygerber/console/gerber.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 23f8969..83deb24 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import json
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import Any, Callable, Iterable, Literal, Optional
 
 import click
@@ -25,6 +26,14 @@ def convert() -> None:
     """Convert Gerber image to different image format."""
 
 
+def _save(output: str, save: Callable[..., None], **options: Any) -> None:
+    # Encoding may fail, existing file must not be lost then.
+    with TemporaryDirectory() as directory:
+        image = Path(directory) / Path(output).name
+        save(image, **options)
+        Path(output).write_bytes(image.read_bytes())
+
+
 def _get_file_type_option() -> Callable[[click.decorators.FC], click.decorators.FC]:
     return click.option(
         "-t",
@@ -148,7 +157,7 @@ def png(
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
-        result.save_png(output)
+        _save(output, result.save_png)
 
     else:
         msg = f"Implementation {implementation!r} is not supported."
@@ -235,7 +244,7 @@ def jpeg(  # noqa: PLR0913
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
-        result.save_jpeg(output, quality=quality)
+        _save(output, result.save_jpeg, quality=quality)
 
     else:
         msg = f"Implementation {implementation!r} is not supported."
@@ -308,7 +317,7 @@ def tiff(  # noqa: PLR0913
         if compression == "jpeg":
             opts["quality"] = quality
 
-        result.save_tiff(output, **opts)
+        _save(output, result.save_tiff, **opts)
 
     else:
         msg = f"Implementation {implementation!r} is not supported."
@@ -340,7 +349,7 @@ def bmp(
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
-        result.save_bmp(output)
+        _save(output, result.save_bmp)
 
     else:
         msg = f"Implementation {implementation!r} is not supported."
@@ -391,7 +400,7 @@ def webp(  # noqa: PLR0913
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
-        result.save_webp(output, lossless=lossless, quality=quality)
+        _save(output, result.save_webp, lossless=lossless, quality=quality)
 
     else:
         msg = f"Implementation {implementation!r} is not supported."
@@ -537,7 +546,7 @@ def merge_convert_png(
 
     if implementation.lower() == "pillow":
         result = view.render_with_pillow(dpmm)
-        result.save_png(output)
+        _save(output, result.save_png)
 
     else:
         msg = f"Implementation {implementation!r} is not supported."
@@ -571,7 +580,7 @@ def merge_convert_jpeg(
 
     if implementation.lower() == "pillow":
         result = view.render_with_pillow(dpmm)
-        result.save_jpeg(output)
+        _save(output, result.save_jpeg)
 
     else:
         msg = f"Implementation {implementation!r} is not supported."
-- 
2.43.0


From a62d60157d7aa377f2a08bd54ba1691afc257028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 61/65] fix: job files which were not loaded from disk could
 not be created

---
 src/pygerber/gerber/api/_gerber_job_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index 368ec74..2f70743 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -102,7 +102,9 @@ class GerberJobFile(_ModelType):
     __file_path__: Optional[Path] = None
 
     def model_post_init(self, __context: Any) -> None:
-        self.__file_path__ = Path(__context["__file_path__"])
+        # Context is missing when model was not loaded from file on disk.
+        if __context is not None and "__file_path__" in __context:
+            self.__file_path__ = Path(__context["__file_path__"])
         return super().model_post_init(__context)
 
     @classmethod
-- 
2.43.0


From 2ee6b998d65f3cd7f8fd4f8990ef88d60be224e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:25 +0000
Subject: [PATCH 62/65] fix: round computed vertex and ring counts of macro
 primitives instead of truncating them

---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 505802e..19cacc6 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -922,7 +922,7 @@ class MacroEvalVisitor(AstVisitor):
     def on_code_5(self, node: Code5) -> Code5:
         """Handle `Code5` node."""
         exposure = self._eval(node.exposure)
-        number_of_vertices = int(self._eval(node.number_of_vertices))
+        number_of_vertices = round(self._eval(node.number_of_vertices))
         center_x = self._eval(node.center_x)
         center_y = self._eval(node.center_y)
         diameter = self._eval(node.diameter)
@@ -986,7 +986,7 @@ class MacroEvalVisitor(AstVisitor):
             # Diameter is reduced from both sides, hence ring_thickness * 2.
             current_inner_diameter = outer_diameter - (ring_thickness * 2)
 
-            for _ in range(int(max_ring_count)):
+            for _ in range(round(max_ring_count)):
                 if current_outer_diameter <= 0:
                     break
 
-- 
2.43.0


From d6b151350be1e6a8e0151fcb0c40050e2a79c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:34 +0000
Subject: [PATCH 63/65] fix: attach aperture attributes to rings of moire
 primitive

---
 src/pygerber/gerber/compiler/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 19cacc6..d32aa0a 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -994,7 +994,10 @@ class MacroEvalVisitor(AstVisitor):
                 if current_inner_diameter <= 0:
                     shapes.append(
                         Shape.new_circle(
-                            center, current_outer_diameter, is_negative=False
+                            center,
+                            current_outer_diameter,
+                            is_negative=False,
+                            metadata=self._metadata,
                         )
                     )
                     break
@@ -1005,6 +1008,7 @@ class MacroEvalVisitor(AstVisitor):
                         current_outer_diameter,
                         current_inner_diameter,
                         is_negative=False,
+                        metadata=self._metadata,
                     )
                 )
                 current_outer_diameter -= diameter_delta
-- 
2.43.0


From 7ca83adc3079bc1911100482088fed6bca41946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:17 +0000
Subject: [PATCH 64/65] fix: highlight template names of apertures with codes
 of four and more digits

---
 src/pygerber/gerber/pygments.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/pygments.py b/src/pygerber/gerber/pygments.py
index 8ea7c85..1547435 100644
--- a/src/pygerber/gerber/pygments.py
+++ b/src/pygerber/gerber/pygments.py
@@ -27,7 +27,7 @@ def is_pygments_available() -> bool:
 
 
 if is_pygments_available():
-    from pygments.lexer import RegexLexer
+    from pygments.lexer import RegexLexer, bygroups
     from pygments.lexers.python import PythonLexer
     from pygments.token import Keyword, Name, Number
 
@@ -62,9 +62,10 @@ if is_pygments_available():
                 (r"(?<=%)TF", Keyword),
                 (r"(?<=%)TD", Keyword),
                 # apertures
-                (r"(?<=%ADD[0-9])[._a-zA-Z$][._a-zA-Z0-9]*", Name.Class),
-                (r"(?<=%ADD[0-9][0-9])[._a-zA-Z$][._a-zA-Z0-9]*", Name.Class),
-                (r"(?<=%ADD[0-9][0-9][0-9])[._a-zA-Z$][._a-zA-Z0-9]*", Name.Class),
+                (
+                    r"(?<=%)(AD)(D[0-9]+)([._a-zA-Z$][._a-zA-Z0-9]*)",
+                    bygroups(Keyword, Name.Variable, Name.Class),
+                ),
                 (r"(?<=%)AD", Keyword),
                 (r"(?<=%)AM", Keyword),
                 (r"(?<=%AM)[._a-zA-Z$][._a-zA-Z0-9]*", Name.Class),
-- 
2.43.0


From 2b875bdaadec67b91c801807b30c7fe0651e7fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:59 +0000
Subject: [PATCH 65/65] fix: format and lint commands depended on encoding of
 locale

---
 src/pygerber/console/gerber.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 83deb24..d7f988e 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -508,7 +508,7 @@ def format_cmd(
 
     formatted_code = file.formats(options=options)
 
-    with output_path.open("w") as f:
+    with output_path.open("w", encoding="utf-8") as f:
         f.write(formatted_code)
 
 
@@ -618,7 +618,7 @@ def lint(files: str, rules: list[str]) -> None:
     for file in files:
         path = Path(file).expanduser().resolve()
 
-        ast = parse(path.read_text())
+        ast = parse(path.read_text(encoding="utf-8"))
         violations = lint(ast, rules=rules)
 
         for violation in violations:
-- 
2.43.0

